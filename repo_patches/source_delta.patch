From 3abc45a3a87f38076e4f333bdafb72f42b08dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 001/184] fix: accumulate the scale of successive unit
 conversions of a physical array

---
 src/eprempy/physical/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 5df9419..0da0f1a 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -153,7 +153,7 @@ def converter(c: metric.Conversion, x: Array) -> Array:
     if c.old == c.new:
         return x
     new = x.spawn(x._data_interface, unit=c.new, axes=x.axes)
-    new._scale = float(c)
+    new._scale = x._scale * float(c)
     return new
 
 
-- 
2.43.0


From 71024555eb5f38bb32d43e7c4d990946a54a8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 002/184] fix: keep the converted values when transposing a
 physical array

---
 src/eprempy/physical/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 0da0f1a..d3b1f1b 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -88,7 +88,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
         """Transpose this array."""
         if not args:
             return self
-        data = self._data_interface.transpose(*args)
+        data = self.data.transpose(*args)
         axes = self.axes.permute(*args)
         return self.spawn(data, unit=self.unit, axes=axes)
 
-- 
2.43.0


From 629e207d69ff1bba7b619f478eace6e79e080bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 003/184] fix: broadcast singular dimensions when meshing
 numeric arrays

---
 src/eprempy/numeric/_array.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df2e126..6224cca 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -799,10 +799,23 @@ def remesh(a: Array, b: Array):
         for d in dimensions
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
-    idxa = tuple(idxmesh[dimensions.index(d)] for d in a.shapemap)
-    idxb = tuple(idxmesh[dimensions.index(d)] for d in b.shapemap)
+    idxa = _mesh_indices(a, dimensions, idxmesh)
+    idxb = _mesh_indices(b, dimensions, idxmesh)
     x = numpy.array(a, ndmin=ndim) if a.size == 1 else a._load_array(idxa)
     y = numpy.array(b, ndmin=ndim) if b.size == 1 else b._load_array(idxb)
     return x, y
 
 
+def _mesh_indices(x: Array, dimensions: Dimensions, idxmesh):
+    """Helper for `remesh`.
+
+    The only valid index along a singular dimension is 0, even if the mesh is
+    longer than 1 along that dimension.
+    """
+    indices = []
+    for d, n in x.shapemap.items():
+        index = idxmesh[dimensions.index(d)]
+        indices.append(numpy.zeros_like(index) if n == 1 else index)
+    return tuple(indices)
+
+
-- 
2.43.0


From 841ac8b33852a93eaff7267e24372dfb052ba28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 004/184] fix: keep the full axis when merging axes with a
 singular counterpart

---
 src/eprempy/physical/_axes.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index f82b889..b2bf699 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -180,9 +180,20 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         except container.MergeError as err:
             errmsg = str(err).replace('entries', 'dimensions')
             raise ValueError(errmsg) from err
-        mapping = {k: other[k] if k in other else self[k] for k in keys}
+        mapping = {k: self._select(k, other) for k in keys}
         return Axes(mapping)
 
+    def _select(self, key: str, other: typing.Mapping):
+        """Choose between this axis and that of `other`.
+
+        A singular axis does not replace a full axis.
+        """
+        if key not in other:
+            return self[key]
+        if key in self and len(other[key]) == 1 < len(self[key]):
+            return self[key]
+        return other[key]
+
     def copy(self):
         """Create a shallow copy of this collection."""
         return Axes({d: self[d] for d in self.dimensions})
-- 
2.43.0


From 8397c498925500d61d2546f2373f8ba0db0f3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 005/184] fix: respect dimensions when raising a physical array
 to an array power

---
 src/eprempy/physical/_operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 709f4c8..f21e374 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -386,8 +386,9 @@ def exponential(f, a, b, **kwargs):
         # - both `a` and `b` are unitless
         # - `b` is array-like
         if isinstance(a, Array) and isinstance(b, Array):
-            data = f(a.data.array, b.data.array, **kwargs)
-            return array_factory(data, unit='1', axes=a.axes)
+            data = f(a.data, b.data, **kwargs)
+            axes = a.axes | b.axes
+            return array_factory(data, unit='1', axes=axes)
         if isinstance(a, Array):
             data = f(a.data.array, b.data, **kwargs)
             return array_factory(data, unit='1', axes=a.axes)
-- 
2.43.0


From 0356811af38e52b506b89648efb706bed6c60237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 006/184] fix: honor slice bounds when mixing slices with index
 sequences

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e3e8d38..ac81402 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -622,7 +622,7 @@ def normalize(shape: typing.Sequence[int], args):
     indices = []
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
-            indices.append(range(shape[i]))
+            indices.append(range(*arg.indices(shape[i])))
         elif isintegral(arg):
             indices.append((arg,))
         else:
-- 
2.43.0


From 15e9a11e0fb31fb4d902df814aaa26131c5f73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 007/184] fix: compute the length of stepped and negative
 slices of numeric arrays

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 6224cca..39382e2 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -396,7 +396,7 @@ class Array(Quantity[DataType], Operators):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def __str__(self) -> str:
-- 
2.43.0


From dfb4dc8a328a15fabd0a59eb7c5ec2c1a5bae15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 008/184] fix: allow numpy integer arrays as indices of a
 physical axis

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index e5397b7..8ca2109 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -97,7 +97,7 @@ class Axis(numeric.Object[T]):
         original reference array.
         """
         axis = self.spawn(self.data[__i])
-        if __i in (slice(None), ...):
+        if __i is ... or (isinstance(__i, slice) and __i == slice(None)):
             return axis
         idx = self.normalize(container.unwrap(__i))
         axis._indices = numeric.index.sequence(idx)
-- 
2.43.0


From 4ca60e3540371afceea9ac281535ba1b7562825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 009/184] fix: keep trailing dimensions when indexing only the
 leading ones

---
 src/eprempy/numeric/_array.py  | 1 +
 src/eprempy/physical/_array.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 39382e2..3203d3a 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -388,6 +388,7 @@ class Array(Quantity[DataType], Operators):
                     self._get_axis_size(i, v)
                     for i, v in enumerate(indices)
                 ]
+                shape.extend(self.shape[len(indices):])
                 return array.reshape(shape)
         return array
 
diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index d3b1f1b..1bd817a 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -67,6 +67,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
 
     def __getitem__(self, args, /):
         idx = numeric.index.expand(self.ndim, args)
+        idx = (*idx, *[slice(None)] * (self.ndim - len(idx)))
         data = self.data[idx]
         axes = {k: v[i] for i, (k, v) in zip(idx, self.axes.items())}
         return self.spawn(data, unit=self.unit, axes=axes)
-- 
2.43.0


From 1a48c5475f1b4e1fc4f3c8969f1cbe5a6cd0afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 010/184] fix: apply the given axes when transposing data via
 numpy.transpose

---
 src/eprempy/real/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 849daae..6b588f6 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -323,8 +323,8 @@ def cumsum(x: Array[ValueType], **kwargs):
 @Array.implements(numpy.transpose)
 def transpose(x: Array[ValueType], **kwargs):
     """Compute the transpose of an array and dimensions."""
-    data = x.array.transpose()
     axes = kwargs.get('axes')
+    data = numpy.transpose(x.array, axes)
     if axes is None:
         dimensions = x.dimensions[::-1]
         return array_factory(data, dimensions=dimensions)
-- 
2.43.0


From 15c647033bab2ccbdfa25007b68ba92c6fe0789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 011/184] fix: support numpy.squeeze along a single axis of
 several singular ones

---
 src/eprempy/real/_array.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 6b588f6..f5b7c55 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -275,13 +275,24 @@ def array_equal(
     return numpy.array_equal(numpy.array(a), numpy.array(b))
 
 
+def _remaining(x: Array[ValueType], axis) -> typing.List[str]:
+    """Compute the dimensions of `x` that remain after removing `axis`."""
+    axes = axis if isinstance(axis, tuple) else (axis,)
+    removed = [ax % x.ndim for ax in axes]
+    return [d for i, d in enumerate(x.dimensions) if i not in removed]
+
+
 @Array.implements(numpy.squeeze)
 def squeeze(x: Array[ValueType], **kwargs):
     """Called for numpy.squeeze(x)."""
     data = numpy.squeeze(x.array, **kwargs)
     if data.ndim == 0:
         return float(data)
-    dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    axis = kwargs.get('axis')
+    if axis is None:
+        dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    else:
+        dimensions = _remaining(x, axis)
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From 58cb3c34aee5d690546a86a98a0af6fff47f24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 012/184] fix: complete the support for reductions of physical
 arrays

---
 src/eprempy/physical/_operations.py | 43 ++++++++++++-----------------
 src/eprempy/real/_array.py          | 35 ++++++++++++++---------
 2 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index f21e374..9467ed5 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -13,6 +13,7 @@ from ._scalar import Scalar
 from ._vector import Vector
 from ._tensor import Tensor
 from ._array import Array
+from ._axis_factories import points_factory
 from ._object_factories import (
     scalar_factory,
     vector_factory,
@@ -549,51 +550,43 @@ def squeeze(x: Measured[real.ValueType], **kwargs):
 @from_numpy
 def npmin(x: Measured[real.ValueType], **kwargs):
     """Compute the minimum value of `x`."""
-    data = numpy.min(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _apply_reduction(numpy.min, x, **kwargs)
 
 
 @objects(numpy.max)
 @from_numpy
 def npmax(x: Measured[real.ValueType], **kwargs):
     """Compute the maximum value of `x`."""
-    data = numpy.max(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _apply_reduction(numpy.max, x, **kwargs)
 
 
 @objects(numpy.mean)
 @from_numpy
 def mean(x: Measured[real.ValueType], **kwargs):
     """Compute the mean of `x`."""
-    data = numpy.mean(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _apply_reduction(numpy.mean, x, **kwargs)
 
 
 @objects(numpy.sum)
 @from_numpy
 def sum(x: Measured[real.ValueType], **kwargs):
     """Compute the sum of `x`."""
-    data = numpy.sum(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    return _apply_reduction(numpy.sum, x, **kwargs)
+
+
+def _apply_reduction(f, x: Measured[real.ValueType], **kwargs):
+    """Helper for functions that reduce one or more axes of `x`."""
+    data = f(x.data, **kwargs)
+    reduced = kwargs.get('axis') is None
+    if isinstance(x, Scalar) or (reduced and not kwargs.get('keepdims')):
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
+        # A reduced axis no longer has meaningful labels.
+        metadata['axes'] = {
+            d: x.axes[d] if n == x.shapemap[d] else points_factory(n)
+            for d, n in data.shapemap.items()
+        }
     return numeric.Result(data, **metadata)
 
 
@@ -617,7 +610,7 @@ def cumsum(x: Measured[real.ValueType], **kwargs):
       implementation.
     """
     data = numpy.cumsum(x.data, **kwargs)
-    if isinstance(x, (Scalar, Vector)) or 'axis' not in kwargs:
+    if isinstance(x, (Scalar, Vector)) or kwargs.get('axis') is None:
         return vector_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index f5b7c55..7a0f444 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -296,30 +296,39 @@ def squeeze(x: Array[ValueType], **kwargs):
     return array_factory(data, dimensions=dimensions)
 
 
+@Array.implements(numpy.min)
+def npmin(x: Array[ValueType], **kwargs):
+    """Compute the minimum of the underlying array."""
+    return _reduce(numpy.min, x, **kwargs)
+
+
+@Array.implements(numpy.max)
+def npmax(x: Array[ValueType], **kwargs):
+    """Compute the maximum of the underlying array."""
+    return _reduce(numpy.max, x, **kwargs)
+
+
 @Array.implements(numpy.mean)
 def mean(x: Array[ValueType], **kwargs):
     """Compute the mean of the underlying array."""
-    data = x.array.mean(**kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
-        return data
-    ax = axis % x.ndim
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    return _reduce(numpy.mean, x, **kwargs)
 
 
 @Array.implements(numpy.sum)
 def sum(x: Array[ValueType], **kwargs):
     """Compute the sum of the underlying array."""
-    data = x.array.sum(**kwargs)
+    return _reduce(numpy.sum, x, **kwargs)
+
+
+def _reduce(f, x: Array[ValueType], **kwargs):
+    """Helper for functions that reduce the underlying array."""
+    data = f(x.array, **kwargs)
+    if kwargs.get('keepdims'):
+        return array_factory(data, dimensions=x.dimensions)
     axis = kwargs.get('axis')
     if axis is None:
         return data
-    if 'keepdims' in kwargs:
-        return array_factory(data, dimensions=x.dimensions)
-    ax = x.ndim + axis if axis < 0 else axis
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    return array_factory(data, dimensions=_remaining(x, axis))
 
 
 @Array.implements(numpy.cumsum)
-- 
2.43.0


From d2e9ab4feb345b7a18366dd41e4b6c08a3f0e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 013/184] fix: convert degrees to radians in trigonometric
 functions

---
 src/eprempy/physical/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 9467ed5..0a25be5 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -460,7 +460,7 @@ def _apply_trig(f, x: Measured[real.ValueType]):
         metadata = {'unit': '1'}
         if isinstance(x, Array):
             metadata['axes'] = x.axes
-        return numeric.Result(f(x.data), **metadata)
+        return numeric.Result(f(x.withunit('rad').data), **metadata)
     strf = f.__name__
     raise ValueError(
         f"Cannot compute {strf}(x)"
-- 
2.43.0


From 13e2770384bf51e70649fb20a5b8f3a8da440a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 014/184] fix: pass each array argument of a numpy function as
 itself

---
 src/eprempy/numeric/_array.py | 2 +-
 src/eprempy/real/_array.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 3203d3a..7051ad2 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -629,7 +629,7 @@ class Array(Quantity[DataType], Operators):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 7a0f444..529a0af 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -52,7 +52,7 @@ class Array(numeric.Array[T], base.abc.Real):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
-- 
2.43.0


From a42f4c14580174c25bb6b5273c265aa1c7cacee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 015/184] fix: include the unit of the sample points in
 numpy.trapz of an array

---
 src/eprempy/physical/_operations.py | 23 ++++++++++++++++-------
 src/eprempy/real/_array.py          |  9 ++++-----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 0a25be5..87e9263 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -673,18 +673,27 @@ def _apply_gradient(unit, x, *args, **kwargs):
 
 @Array.implements(numpy.trapz)
 @from_numpy
-def trapz(x: Measured[real.ValueType], *args, **kwargs):
-    """Integrate `x` via the composite trapezoidal rule."""
-    if isinstance(x, Scalar):
+def trapz(a: Measured[real.ValueType], /, x=None, **kwargs):
+    """Integrate `a` via the composite trapezoidal rule."""
+    if isinstance(a, Scalar):
         raise TypeError(
             "Cannot apply numpy.trapz to a scalar object"
         ) from None
-    data = numpy.trapz(x.data, *args, **kwargs)
+    unit = a.unit
+    if isinstance(x, Measured):
+        unit *= x.unit
+        x = numpy.array(x)
+    dx = kwargs.get('dx')
+    if isinstance(dx, Scalar):
+        if x is None:
+            unit *= dx.unit
+        kwargs['dx'] = float(dx)
+    data = numpy.trapz(a.data, x=x, **kwargs)
     if isinstance(data, (numbers.Real, numpy.number)):
         return data
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
+    metadata = {'unit': unit}
+    if isinstance(a, Array):
+        metadata['axes'] = {d: a.axes[d] for d in data.dimensions}
     return numeric.Result(data, **metadata)
 
 
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 529a0af..a74884e 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -384,15 +384,14 @@ def _apply_gradient(
 
 
 @Array.implements(numpy.trapz)
-def trapz(x: Array[ValueType], *args, **kwargs):
+def trapz(a: Array[ValueType], /, *args, **kwargs):
     """Integrate the array via the composite trapezoidal rule."""
-    data = numpy.trapz(x.array, *args, **kwargs)
+    data = numpy.trapz(a.array, *args, **kwargs)
     axis = kwargs.get('axis')
     if axis is None:
-        dimensions = x.dimensions[:-1]
+        dimensions = a.dimensions[:-1]
     else:
-        ax = axis % x.ndim
-        dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
+        dimensions = _remaining(a, axis)
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From 4c62a7b7d3955e7b8da4994182d8fb83d305a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 016/184] Revert "fix: convert degrees to radians in
 trigonometric functions"

This reverts commit d2e9ab4feb345b7a18366dd41e4b6c08a3f0e4b7.
---
 src/eprempy/physical/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 87e9263..31ad050 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -460,7 +460,7 @@ def _apply_trig(f, x: Measured[real.ValueType]):
         metadata = {'unit': '1'}
         if isinstance(x, Array):
             metadata['axes'] = x.axes
-        return numeric.Result(f(x.withunit('rad').data), **metadata)
+        return numeric.Result(f(x.data), **metadata)
     strf = f.__name__
     raise ValueError(
         f"Cannot compute {strf}(x)"
-- 
2.43.0


From 6a6e220dd863c3a0e51f10c73bade0a96c391532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 017/184] Revert "fix: apply the given axes when transposing
 data via numpy.transpose"

This reverts commit 1a48c5475f1b4e1fc4f3c8969f1cbe5a6cd0afc6.
---
 src/eprempy/real/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index a74884e..80a45a6 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -343,8 +343,8 @@ def cumsum(x: Array[ValueType], **kwargs):
 @Array.implements(numpy.transpose)
 def transpose(x: Array[ValueType], **kwargs):
     """Compute the transpose of an array and dimensions."""
+    data = x.array.transpose()
     axes = kwargs.get('axes')
-    data = numpy.transpose(x.array, axes)
     if axes is None:
         dimensions = x.dimensions[::-1]
         return array_factory(data, dimensions=dimensions)
-- 
2.43.0


From 5a187079340965b411764a7adaf1862f4977e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 018/184] fix: reduce a physical vector along its only axis

---
 src/eprempy/physical/_operations.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 31ad050..e16367e 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -577,8 +577,7 @@ def sum(x: Measured[real.ValueType], **kwargs):
 def _apply_reduction(f, x: Measured[real.ValueType], **kwargs):
     """Helper for functions that reduce one or more axes of `x`."""
     data = f(x.data, **kwargs)
-    reduced = kwargs.get('axis') is None
-    if isinstance(x, Scalar) or (reduced and not kwargs.get('keepdims')):
+    if isinstance(x, Scalar) or isinstance(data, numbers.Real):
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
-- 
2.43.0


From 081efe5c728459e01c6e2aec94d26ab034a89c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 019/184] fix: create the script of a new project from the
 current template

---
 src/eprempy/project.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e373832..43e9305 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -790,13 +790,18 @@ class Interface:
             return
         with (DIRECTORY / '_project_main.py').open('r') as rp:
             lines = rp.readlines()
-        payload = lines.copy()
-        import_line = lines.index(f'import {__name__}\n')
+        relative = 'from . import '
+        absolute = f'from {__package__} import '
+        payload = [line.replace(relative, absolute) for line in lines]
+        import_line = next(
+            i for i, line in enumerate(payload)
+            if line.startswith(absolute)
+        )
         path_spec = (
             "import pathlib\n"
             "import sys\n"
             "\n"
-            f"sys.path.append({str(DIRECTORY)!r})\n"
+            f"sys.path.append({str(DIRECTORY.parent)!r})\n"
             "\n"
         )
         payload.insert(import_line, path_spec)
-- 
2.43.0


From a38c59b5f765010820e55b87ffee1968806340b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 020/184] fix: update the paths of logged runs when the project
 moves

---
 src/eprempy/project.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 43e9305..49321ff 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -117,10 +117,15 @@ class RunLog(collections.abc.Mapping):
             raise paths.PathTypeError("The new path must exist") from None
         if not new.is_dir():
             raise paths.PathTypeError("Cannot rename log file") from None
+        source = self.path.parent
         self._path = new / self.name
-        source = str(self.path.parent)
-        for key in self:
-            self.mv(key, key.replace(source, str(new)))
+        updated = {}
+        for key, value in self._asdict.items():
+            path = pathlib.Path(key)
+            if source in path.parents:
+                key = str(new / path.relative_to(source))
+            updated[key] = value
+        self.dump(updated)
         return self
 
     @typing.overload
-- 
2.43.0


From c19da2fedc05a9ed89d44c2a3bf0f76f11d055d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 021/184] fix: update the name and attributes of a renamed
 project

---
 src/eprempy/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 49321ff..aeb9d4f 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -885,6 +885,9 @@ class Interface:
         self.log.update_directory(new)
         # Update the project metadata.
         self._update_metadata(str(old), str(new), new / '.eprem.conf')
+        # Update the attributes that depend on the root directory.
+        self._attrs = self._restore_project(new)
+        self._name = None
         # Echo success, if applicable.
         if not silent:
             if self.root.parent == old.parent == pathlib.Path.cwd():
-- 
2.43.0


From 7e8b1cf420809437e1ab9898a3ce202cc649b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 022/184] fix: allow renaming a run that has no log entry

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index aeb9d4f..4716ccc 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1012,7 +1012,8 @@ class Interface:
                 print(f"Nothing to rename for {source!r}")
             return
         for (run, new) in pairs.errors(force=(not errors), silent=silent):
-            self.log.mv(run, new)
+            if str(run) in self.log:
+                self.log.mv(run, new)
             if not silent:
                 branch = self._get_branch_name(run)
                 base = f"Renamed {source!r} to {target!r}"
-- 
2.43.0


From 37f712a74d8c96cb8b56aa21aad2e6ef11df1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 023/184] fix: keep the attributes of a copied project unless
 overridden

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 4716ccc..d64ccef 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -738,7 +738,7 @@ class Interface:
             return self._get_attrs(root, **options)
         restored = self._restore_project(paths.normalize(copy))
         copied = restored.options
-        copied.update(options)
+        copied.update({k: v for k, v in options.items() if v is not None})
         return self._get_attrs(root, **copied)
 
     def _get_attrs(self, root: paths.PathLike, **options):
-- 
2.43.0


From 0368ed6d961262665bd7baec8aae7c2e27e22480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 024/184] fix: honor the declared inputs directory and config
 name when running

---
 src/eprempy/project.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index d64ccef..c8360b3 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -944,6 +944,13 @@ class Interface:
                 silent=silent,
             )
 
+    def _find_config(self, config: paths.PathLike) -> pathlib.Path:
+        """Compute the full path to an existing configuration file."""
+        inputs = self._attrs.inputs / config
+        if inputs.is_file():
+            return inputs
+        return paths.fullpath(config, strict=True)
+
     def _create_run(
         self: InterfaceType,
         config: paths.PathLike,
@@ -953,16 +960,14 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / 'inputs' / config
-        inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
-        shutil.copy(inputs, path / self._attrs.config)
+        shutil.copy(self._find_config(config), path / self._attrs.config)
         branch = path.parent.parent
         mpirun = paths.locate('mpirun', branch, environment or {})
         eprem = paths.locate('eprem', branch, environment or {})
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
             f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} eprem.cfg"
+            f"-n {nproc or 1} {eprem} {self._attrs.config}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From dee152964104e598b049b180a9f2b66f4e05bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 025/184] fix: do not create run directories if the config file
 does not exist

---
 src/eprempy/project.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index c8360b3..16f5a3d 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -933,6 +933,7 @@ class Interface:
         silent: bool=False,
     ) -> InterfaceType:
         """Set up and execute a new EPREM run within this project."""
+        self._find_config(config) # Fail before creating any directories.
         run = name or datetime.datetime.now().strftime('%Y-%m-%dT%H-%M-%S.%f')
         p = self.directories.mkdir(run, branches=branches)
         for path in p.errors(force=(not errors), silent=silent):
-- 
2.43.0


From b4f073ec471efda4eeb5cd558db745d62e3dc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 026/184] fix: never leave a partially written run log

---
 src/eprempy/project.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 16f5a3d..58c7bc5 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -240,8 +240,11 @@ class RunLog(collections.abc.Mapping):
             k: str(v) if isinstance(v, pathlib.Path) else v
             for k, v in contents.items()
         }
-        with self.path.open('w') as fp:
-            json.dump(payload, fp, indent=4, sort_keys=True)
+        text = json.dumps(payload, indent=4, sort_keys=True)
+        temporary = self.path.with_name(f".{self.name}.tmp")
+        with temporary.open('w') as fp:
+            fp.write(text)
+        temporary.replace(self.path)
 
     @property
     def name(self):
-- 
2.43.0


From 895faff9214f6b134244905c3a0019e23346120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 027/184] fix: compare the attributes of equivalent projects by
 value

---
 src/eprempy/project.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 58c7bc5..8e74b0d 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -681,6 +681,12 @@ class Attrs:
         """The local path component of the project log file."""
         return self._public['logname']
 
+    def __eq__(self, other) -> bool:
+        """True if two objects represent the same attributes."""
+        if isinstance(other, Attrs):
+            return self._public == other._public
+        return NotImplemented
+
     def __repr__(self) -> str:
         """An unambiguous representation of this object."""
         display = {k: v for k, v in self._public.items() if k != 'branches'}
-- 
2.43.0


From 4f4cb02838f68c22b91f68ae198bb56d206bf971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 028/184] fix: restore a project from where it is instead of
 where it was

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 8e74b0d..4869226 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -783,8 +783,8 @@ class Interface:
         """Load attributes of an existing project."""
         with (path / '.eprem.conf').open('r') as fp:
             old = dict(json.load(fp))
-        here = old.pop('root')
-        return Attrs(here, **old)
+        old.pop('root')
+        return Attrs(path, **old)
 
     def _get_log(self, attrs: Attrs):
         """Create or retrieve the log of runs."""
-- 
2.43.0


From 35872c3e00acb96efcbfde0a930846706d0faed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 029/184] fix: do not copy the whole log into an entry loaded
 from a file

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 4869226..8c54e6a 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -175,8 +175,8 @@ class RunLog(collections.abc.Mapping):
         return self
 
     def _read_from_file(self, source, filetype):
-        """Update the current contents from the `source` file."""
-        contents = self._asdict.copy()
+        """Read the contents of a new entry from the `source` file."""
+        contents = {}
         loader = self._source_loader(filetype or pathlib.Path(source).suffix)
         with pathlib.Path(source).open('r') as fp:
             if loaded := loader(fp):
-- 
2.43.0


From 27381dc557a36ff7147036357f3ee0ae7fae3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 030/184] fix: fall back to the given name when locating an
 executable

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 140a638..55b8135 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -60,7 +60,7 @@ def locate(
     """
     location = environment.get(name) or path / name
     it = normalize(os.path.realpath(location))
-    return it if it.exists() else pathlib.Path(shutil.which(name))
+    return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
 class PathSet(etc.InstanceSet):
-- 
2.43.0


From 24da5d6f321931b0e045a72656ddd1c5dab203a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 031/184] fix: never leave partially written project files

---
 src/eprempy/project.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 8c54e6a..fd7361c 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -42,6 +42,14 @@ class ReadTypeError(Exception):
     """There is no support for reading a given file type."""
 
 
+def _write_text(path: pathlib.Path, text: str):
+    """Write `text` to `path` without ever exposing a partial file."""
+    temporary = path.with_name(f".{path.name}.tmp")
+    with temporary.open('w') as fp:
+        fp.write(text)
+    temporary.replace(path)
+
+
 RunLogType = typing.TypeVar('RunLogType', bound='RunLog')
 
 
@@ -240,11 +248,10 @@ class RunLog(collections.abc.Mapping):
             k: str(v) if isinstance(v, pathlib.Path) else v
             for k, v in contents.items()
         }
-        text = json.dumps(payload, indent=4, sort_keys=True)
-        temporary = self.path.with_name(f".{self.name}.tmp")
-        with temporary.open('w') as fp:
-            fp.write(text)
-        temporary.replace(self.path)
+        _write_text(
+            self.path,
+            json.dumps(payload, indent=4, sort_keys=True),
+        )
 
     @property
     def name(self):
@@ -775,8 +782,10 @@ class Interface:
         """Set attributes on a new project."""
         attrs = Attrs(path, **options)
         attrs.root.mkdir(parents=True)
-        with (path / '.eprem.conf').open('w') as fp:
-            json.dump(attrs.serial, fp, indent=4, sort_keys=True)
+        _write_text(
+            path / '.eprem.conf',
+            json.dumps(attrs.serial, indent=4, sort_keys=True),
+        )
         return attrs
 
     def _restore_project(self, path: pathlib.Path):
@@ -819,11 +828,12 @@ class Interface:
             "\n"
         )
         payload.insert(import_line, path_spec)
-        with path.open('w') as wp:
-            wp.writelines(payload)
-            wp.write("if __name__ == '__main__':\n")
-            wp.write("    cli.run()\n")
-            wp.write("\n")
+        payload += [
+            "if __name__ == '__main__':\n",
+            "    cli.run()\n",
+            "\n",
+        ]
+        _write_text(path, ''.join(payload))
         if _HAVE_ISORT:
             isort.file(path, quiet=True)
         sys.path.append(attrs.root)
@@ -916,8 +926,10 @@ class Interface:
             current = dict(json.load(fp))
         updated = {k: v for k, v in current.items() if k != source}
         updated['root'] = target
-        with metadata.open('w') as fp:
-            json.dump(updated, fp, indent=4, sort_keys=True)
+        _write_text(
+            metadata,
+            json.dumps(updated, indent=4, sort_keys=True),
+        )
         with contextlib.suppress(ValueError):
             sys.path.remove(source)
         sys.path.append(target)
-- 
2.43.0


From 610a9cf7744e49dc4e42e453ed387ec049222a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 032/184] fix: show the runs named on the command line instead
 of their letters

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index fd7361c..07b9ebd 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1349,7 +1349,7 @@ showruns.add_argument(
         "display information about the named run"
         ";\nspecify multiple times to include multiple runs"
     ),
-    action='extend',
+    action='append',
 )
 showruns.add_argument(
     '-a',
-- 
2.43.0


From 2a05ea67bca16d3d7ffefea80a6a5d45cb46af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 033/184] fix: report a missing sub-command as a usage error

---
 src/eprempy/interfaces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/interfaces.py b/src/eprempy/interfaces.py
index b847bae..b3eab79 100644
--- a/src/eprempy/interfaces.py
+++ b/src/eprempy/interfaces.py
@@ -56,7 +56,9 @@ class CLI(typing.Mapping):
     def run(self):
         """Execute operations based on command-like arguments."""
         parsed = vars(self.parser.parse_args())
-        func = parsed.pop('func')
+        func = parsed.pop('func', None)
+        if func is None:
+            self.parser.error("No sub-command given")
         func(**parsed)
 
     @property
-- 
2.43.0


From e42ffeb0b7a1698708aca614f18657eac7b2479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 034/184] fix: compute the arithmetic value of definitions in
 baseTypes.h

---
 src/eprempy/parameter/_src.py | 77 +++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 3b0411a..e1b5067 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -3,9 +3,12 @@ Support for working with EPREM source files.
 """
 
 import abc
+import ast
 import collections.abc
 import json
+import math
 import numbers
+import operator
 import pathlib
 import re
 import typing
@@ -16,6 +19,61 @@ from .. import symbolic
 from . import _metadata
 
 
+_OPERATORS = {
+    ast.Add: operator.add,
+    ast.Sub: operator.sub,
+    ast.Mult: operator.mul,
+    ast.Div: operator.truediv,
+    ast.UAdd: operator.pos,
+    ast.USub: operator.neg,
+}
+
+
+def calculate(
+    string: str,
+    lookup: typing.Callable[[str], numbers.Real],
+) -> numbers.Real:
+    """Compute the value of an arithmetic expression in EPREM source code.
+
+    Parameters
+    ----------
+    string
+        An expression comprising numbers, names, parentheses, calls to `sqrt`,
+        and arithmetic operators.
+
+    lookup : callable
+        A callable object that returns the value of a name.
+
+    Raises
+    ------
+    `TypeError`
+        The string does not represent a supported expression.
+    """
+    def evaluate(node):
+        if isinstance(node, ast.Constant):
+            if isinstance(node.value, numbers.Real):
+                return node.value
+        if isinstance(node, ast.Name):
+            return lookup(node.id)
+        if isinstance(node, ast.UnaryOp) and type(node.op) in _OPERATORS:
+            return _OPERATORS[type(node.op)](evaluate(node.operand))
+        if isinstance(node, ast.BinOp) and type(node.op) in _OPERATORS:
+            args = evaluate(node.left), evaluate(node.right)
+            if isinstance(node.op, ast.Div):
+                if all(isinstance(arg, int) for arg in args):
+                    return int(args[0] / args[1])
+            return _OPERATORS[type(node.op)](*args)
+        if isinstance(node, ast.Call) and len(node.args) == 1:
+            if getattr(node.func, 'id', None) == 'sqrt':
+                return math.sqrt(evaluate(node.args[0]))
+        raise TypeError(f"Can't evaluate {string!r}") from None
+    try:
+        expression = ast.parse(string.strip(), mode='eval')
+    except SyntaxError:
+        raise TypeError(f"Can't evaluate {string!r}") from None
+    return evaluate(expression.body)
+
+
 class SourceFile(collections.abc.Mapping):
     """An object representing parameters in an EPREM source file."""
 
@@ -237,13 +295,8 @@ class BaseTypesH(SourceFile):
         """Compute the value of a defined constant."""
         target = self.definitions[key]
         realtype = self.types.get(key)
-        if isinstance(target, realtype):
-            return target
-        if any(c in target for c in {'*', '/', 'sqrt'}):
-            return self._evaluate(symbolic.expression(target))
-        if realtype:
-            return realtype(target)
-        raise TypeError(target)
+        value = calculate(target, self.__getitem__)
+        return realtype(value) if realtype else value
 
     @property
     def types(self):
@@ -254,16 +307,6 @@ class BaseTypesH(SourceFile):
             }
         return self._types
 
-    def _evaluate(self, expression: symbolic.Expression):
-        """Internal method for evaluating symbolic definitions."""
-        value = 1.0
-        for term in expression:
-            if term.base in self.definitions:
-                value *= float(term(self._compute(term.base)))
-            elif term.base == '1':
-                value *= float(term)
-        return value
-
 
 class FunctionCall:
     """Pattern parser for function calls."""
-- 
2.43.0


From 398a064d12d6955e07255044daa3b0acfd487667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 035/184] fix: compute the arithmetic value of definitions in
 configuration.c

---
 src/eprempy/parameter/_config.py | 38 +++++++-------------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b92a6b8..cb366ce 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -3,7 +3,6 @@ Support for working with EPREM runtime configuration files.
 """
 
 import collections.abc
-import functools
 import numbers
 import pathlib
 import re
@@ -11,7 +10,6 @@ import typing
 
 from .. import etc
 from .. import paths
-from .. import symbolic
 from . import _src
 
 
@@ -49,7 +47,8 @@ class Defaults(collections.abc.Mapping):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := cast(current, strict=False):
+        value = cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -72,33 +71,12 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
-        if result := self._compute_sum(definition):
-            return result
-        if any(c in definition for c in {'*', '/'}):
-            expression = symbolic.expression(definition.replace('config.', ''))
-            evaluated = [
-                term.coefficient * self._evaluate(term.base)**term.exponent
-                for term in expression
-            ]
-            return functools.reduce(lambda x,y: x*y, evaluated)
-        raise TypeError(f"Can't resolve {definition!r}") from None
-
-    def _compute_sum(self, arg: str) -> numbers.Real:
-        """Compute the sum of two known parameters.
-        
-        Notes
-        -----
-        This is only designed to handle strings that contain a single additive
-        operator joining two arguments that `_evaluate` already knows how to
-        handle.
-        """
-        for operator in ('+', '-'):
-            if operator in arg:
-                terms = [
-                    self._evaluate(s.strip())
-                    for s in arg.split(operator)
-                ]
-                return terms[0] + float(f'{operator}1')*terms[1]
+        if definition.isidentifier():
+            raise TypeError(f"Can't resolve {definition!r}") from None
+        return _src.calculate(
+            definition.replace('config.', ''),
+            self._evaluate,
+        )
 
     def _get_argument(self, name: str):
         """Get the current definition and type of a parameter."""
-- 
2.43.0


From 252dbf5c263594252941c6b2e3834b13d4c62911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 036/184] fix: ignore comments in EPREM source files

---
 src/eprempy/parameter/_src.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index e1b5067..5c6d5f3 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -74,6 +74,23 @@ def calculate(
     return evaluate(expression.body)
 
 
+class SourceCode(paths.TextFile):
+    """The text of an EPREM source file without comments."""
+
+    _comments = re.compile(
+        r'("(?:\\.|[^"\\\n])*")|//[^\n]*|/\*.*?\*/',
+        re.DOTALL,
+    )
+
+    @property
+    def lines(self):
+        if self._lines is None:
+            text = self.path.read_text()
+            code = self._comments.sub(lambda m: m[1] or ' ', text)
+            self._lines = code.splitlines(keepends=True)
+        return self._lines
+
+
 class SourceFile(collections.abc.Mapping):
     """An object representing parameters in an EPREM source file."""
 
@@ -88,7 +105,7 @@ class SourceFile(collections.abc.Mapping):
         """Initialize an instance of this class."""
         path = self.build_path(filename, srcdir)
         if path and path.exists():
-            loaded = self.load_from_source(paths.TextFile(path))
+            loaded = self.load_from_source(SourceCode(path))
             self._origin = path
         else:
             loaded = self.load_from_package(db_key)
-- 
2.43.0


From aab244a5fbe5dc5e39522c9e8c114fa6b7eb1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 037/184] fix: keep the full default value of a string that
 contains a comma

---
 src/eprempy/parameter/_src.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 5c6d5f3..270c78a 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -374,10 +374,13 @@ class FunctionCall:
         parsed = {}
         key = parsable['key'].strip(' "')
         mode = parsable['mode']
-        args = parsable['args'].split(',')
+        args = self._separator.split(parsable['args'])
         parsed.update(self._normalize(mode, args))
         return key, parsed
 
+    _separator = re.compile(r',(?=(?:[^"]*"[^"]*")*[^"]*\Z)')
+    """A comma that is not inside a quoted string."""
+
     _keys = {
         'readInt': ['defaultVal', 'minVal', 'maxVal'],
         'readDouble': ['defaultVal', 'minVal', 'maxVal'],
-- 
2.43.0


From 7e76a91aabf2504660334efae0a6310ff989965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 038/184] fix: interpret a single number as the value of an
 array parameter

---
 src/eprempy/parameter/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index cb366ce..fb9aeaf 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -289,7 +289,8 @@ def _convert(arg: typing.Union[str, _RT], realtype: _RT):
     if realtype in {int, float}:
         return soft_convert(arg, realtype)
     if realtype == list:
-        return soft_convert(arg, stringlist)
+        number = soft_convert(arg, cast)
+        return soft_convert(arg, stringlist) if number is arg else [number]
     return arg
 
 
-- 
2.43.0


From 4b57ae54e381bf425f36c69456987babf20a71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 039/184] fix: allow comparing a config file to the path of
 another one

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index fb9aeaf..2f0ac00 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -186,7 +186,7 @@ class ConfigFile(collections.abc.Mapping):
             if isinstance(x, ConfigFile):
                 return x
             if isinstance(x, (str, pathlib.Path)):
-                return ConfigFile(x, **kwargs)
+                return configfile_factory(x, **kwargs)
             raise TypeError(
                 "Argument must be a path-like object"
                 f" or an instance of this class (got {type(x)})"
-- 
2.43.0


From ef8976ab252036e72ff88a632ddfb424c1872ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 040/184] fix: parse blank or indented comment lines and values
 that contain '=' in config files

---
 src/eprempy/parameter/_config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 2f0ac00..3a69efb 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -231,11 +231,10 @@ def _parse_config(
     cmnt = comments or ()
     with filepath.open('r') as fp:
         for line in fp:
-            line = line.rstrip('\n')
-            if line == '' or line == '\n' or line[0] in cmnt:
-                continue
             tmp = paths.strip_inline_comments(line, cmnt)
-            key, value = tmp.split('=')
+            if not tmp:
+                continue
+            key, value = tmp.split('=', maxsplit=1)
             pairs[key.strip()] = value.strip()
     return pairs
 
-- 
2.43.0


From 646eb4a691f29021d7f73d97cfba943d354d42ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 041/184] fix: refuse to represent a multi-valued variable as a
 number

---
 src/eprempy/parameter/_runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index f2efe0d..80cbfa5 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -73,7 +73,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_scalar(self, f: typing.Callable, **kwargs):
         """Return the result of `f` as a `~Scalar`."""
         try:
-            data = f(self.data[0], **kwargs)
+            data = f(self._singular(), **kwargs)
         except TypeError as err:
             raise TypeError(
                 f"Cannot apply {f.__name__} to size-{self.size} variable"
@@ -83,7 +83,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_builtin(self, t: T):
         """Convert this instance to a built-in numeric type."""
         try:
-            result = t(self.data[0])
+            result = t(self._singular())
         except TypeError as err:
             raise TypeError(
                 f"Cannot convert a size-{self.size} variable to {t!r}"
-- 
2.43.0


From b7b79f880172e46e349ad9bbf86bff727dccacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 042/184] fix: generate config files that reproduce the default
 values

---
 src/eprempy/cli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 51783cb..c195f6e 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -60,8 +60,8 @@ def generate_config_file(
         f"# --------------------------------\n",
     ]
     values = [
-        f"{key}={_get_arg_value(default[key])}\n"
-        for key in keys
+        f"{key}={_get_literal(default, key)}\n"
+        for key in keys if default[key] is not None
     ]
     footer = [
         f"# --------------------------------\n",
@@ -75,6 +75,14 @@ def generate_config_file(
         print(f"Wrote default config file to {filepath}")
 
 
+def _get_literal(interface: parameter.Interface, key: str):
+    """Get the value of a parameter in the format of a config file."""
+    arg = interface[key]
+    if interface.reference[key]['type'] is list:
+        return list(arg.data) if isinstance(arg, measured.Object) else arg
+    return _get_arg_value(arg)
+
+
 def compare_config_files(
     files: typing.Iterable[paths.PathLike],
     source: paths.PathLike=None,
-- 
2.43.0


From 3517943d2266f378887cbdcc5609d8674cc87cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 043/184] fix: compare config files to the default values in
 the given source

---
 src/eprempy/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index c195f6e..a0b64b4 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -138,14 +138,14 @@ def _build_arg_dict(
     names: bool=False,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = parameter.interface()
+    default = parameter.interface(srcdir=source)
     normalized = _normalize_paths(files)
     if names:
         mapped = normalized
     else:
         mapped = {k: str(i) for i, k in enumerate(normalized)}
     targets = {
-        relpath: parameter.interface(abspath)
+        relpath: parameter.interface(abspath, srcdir=source)
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-- 
2.43.0


From f7d40ca07cf252c4b4e1a04e938ef3518e32f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 044/184] fix: report only compared values, if any, when
 comparing config files

---
 src/eprempy/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index a0b64b4..2baa821 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -100,6 +100,8 @@ def compare_config_files(
     if not files:
         raise UserError("Nothing to compare") from None
     args = _build_arg_dict(files, source=source, diff=diff, names=names)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
@@ -149,7 +151,7 @@ def _build_arg_dict(
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-    built = {key: {} for key in keys}
+    built = {}
     for key in keys:
         heading = f"  {key} (default: {_format_arg_string(default[key])})  "
         current = _map_parameter(key, targets)
@@ -157,8 +159,6 @@ def _build_arg_dict(
         v0 = values[0]
         if not diff or any(vi != v0 for vi in values):
             built[heading] = current.copy()
-    if diff:
-        return {k: v for k, v in built.items() if v}
     return built
 
 
-- 
2.43.0


From c223ac83d78740fd37e4580a1d2090de5f462f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 045/184] fix: label a single config file by its name

---
 src/eprempy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 2baa821..f923b2a 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -183,7 +183,7 @@ def _normalize_paths(args: typing.Iterable[paths.PathLike]):
         str(arg): str(paths.fullpath(arg, strict=True))
         for arg in args
     }
-    common = os.path.commonpath(full.values())
+    common = os.path.commonpath([os.path.dirname(p) for p in full.values()])
     return {
         str(path): os.path.relpath(path, start=common)
         for path in full.values()
-- 
2.43.0


From a0eff7dc932f2d19b6640de0ce594dcbd21ad623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 046/184] fix: do not evaluate a parenthesized default value to
 a complex number

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 3a69efb..fda3058 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -48,7 +48,7 @@ class Defaults(collections.abc.Mapping):
         if isinstance(current, numbers.Real):
             return current
         value = cast(current, strict=False)
-        if value is not None:
+        if isinstance(value, numbers.Real):
             return value
         if current in self._special_cases:
             return self._special_cases[current]
-- 
2.43.0


From 1bc1864dc7573a46cbe18c13b1c3941aa6311721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 047/184] fix: refuse out-of-range negative indices of a
 variable

---
 src/eprempy/parameter/_runtime.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index 80cbfa5..d3e1e7d 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -38,8 +38,6 @@ class Variable(physical.Vector[real.ValueType]):
           produce 0-D data.
         """
         idx = container.unwrap(args)
-        if isinstance(idx, typing.SupportsIndex) and idx < 0:
-            idx += len(self)
         data = self.data[idx]
         if container.length(data) == 0:
             return physical.scalar(data, unit=self.unit)
-- 
2.43.0


From 4b14ea6fbadcf80bd5057e5ec4280a665338d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 048/184] fix: use the speed of light in cm/s in
 electromagnetic conversions

---
 src/eprempy/metric/_reference.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1ceb542..524a3b4 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -779,17 +779,17 @@ PI = numpy.pi
 _CONVERSIONS = {
     ('Rs', 'm'): 6.96e8,
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -803,7 +803,7 @@ _CONVERSIONS = {
     ('H / m', '1'): 1e7 / 4*PI,
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From bf6a3c685623ab6c2290684c57653997350a5c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 049/184] fix: divide by 4*pi when converting H / m to CGS

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 524a3b4..09a2544 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -800,7 +800,7 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e8 / C,
-- 
2.43.0


From b148181b0397e53d6def0541dead475097d7bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 050/184] fix: interpolate over radius before interpolating
 over time

---
 src/eprempy/observable/_interfaces.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aac0451..74acb3b 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -952,7 +952,10 @@ class Implementations:
             # dimensions.
             return from_axis
         from_grid = self._get_grid_interpolant(x, assumptions, 'radius')
-        return {**from_axis, **from_grid}
+        # NOTE: Radial interpolation needs to come first because its reference
+        # array also depends on time, and must therefore line up with the
+        # original time axis.
+        return {**from_grid, **from_axis}
 
     def _get_axis_interpolant(self, x: physical.Array, assumptions: dict):
         """Compute interpolation information from an axis object."""
-- 
2.43.0


From 0c6976c1aa8fb1052381156edb31febcfab18d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 051/184] fix: interpolate to a radius that equals one of the
 observer's radii

---
 src/eprempy/observable/_interfaces.py | 4 ++--
 src/eprempy/observable/_objects.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 74acb3b..c5e4aad 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1977,10 +1977,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index bb784c0..6842e5b 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -143,10 +143,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
-- 
2.43.0


From 96b8061d938790cd3f4b6c61ebae5510bb256f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 052/184] fix: allow interpolation to the end points of a
 coordinate axis

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index c5e4aad..b3326b1 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1054,7 +1054,7 @@ def _check_interpolation_bounds(
     """Raise an exception if `value` is not bounded by `reference`."""
     a = numpy.min(reference)
     b = numpy.max(reference)
-    if not a < value < b:
+    if not a <= value <= b:
         sv = f"{float(value):6.4g} {str(value.unit)}"
         sa = f"{float(a):6.4g} {str(reference.unit)}"
         sb = f"{float(b):6.4g} {str(reference.unit)}"
-- 
2.43.0


From 1ce30694108a3babf3e2671b52442e2d925b5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 053/184] fix: provide the defined observables ubmag and udotb

---
 src/eprempy/observable/_interfaces.py | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index b3326b1..bdeafe8 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1539,6 +1539,40 @@ class Quantities(collections.abc.Mapping):
             assumptions=user.assumptions,
         )
 
+    @property
+    def ubmag(self):
+        """The product of the velocity- and magnetic-field magnitudes."""
+        return self._implement(
+            self._ubmag,
+            self.ur.unit * self.br.unit,
+            self.ur.dimensions,
+        )
+
+    def _ubmag(self, user: Arguments):
+        """Callback method for |U||B|."""
+        return self.functions.ubmag(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
+    @property
+    def udotb(self):
+        """The inner product of the velocity and magnetic fields, U·B."""
+        return self._implement(
+            self._udotb,
+            self.ur.unit * self.br.unit,
+            self.ur.dimensions,
+        )
+
+    def _udotb(self, user: Arguments):
+        """Callback method for U·B."""
+        return self.functions.udotb(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
     @property
     def angle(self):
         """The angle between the magnetic- and velocity-field vectors."""
-- 
2.43.0


From bb8907c55dfa5904f3812709da66a14e6d244e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 054/184] fix: label the observed angle by the axes of the
 requested subset

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index bdeafe8..6b4ca0d 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -392,7 +392,7 @@ class Implementations:
         return physical.array(
             numpy.arccos(arg),
             unit='rad',
-            axes=self.dataset.ur.axes,
+            axes=ratio.axes,
         )
 
     def uperp(
-- 
2.43.0


From a2466f56211d6f0d5a631600a4ee2d341ce11c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 055/184] fix: label assumed times, energies, and pitch-angle
 cosines by their values

---
 src/eprempy/observable/_interfaces.py | 44 ++++++++++++++++-----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 6b4ca0d..1a7e3f2 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1046,6 +1046,20 @@ def _normalize_indices(*args):
     )
 
 
+def _assumed_coordinates(
+    name: str,
+    values: measured.Object,
+    unit: metric.Unit,
+) -> physical.Array:
+    """Create an array from user-provided values of a coordinate."""
+    measurement = quantity.measure(values).withunit(unit)
+    return physical.array(
+        numpy.array(measurement),
+        unit=unit,
+        axes={name: physical.coordinates(measurement)},
+    )
+
+
 def _check_interpolation_bounds(
     dimension: str,
     value: measured.Object,
@@ -1157,12 +1171,10 @@ class Quantities(collections.abc.Mapping):
     def _time(self, user: Arguments):
         """Callback method for time."""
         if 'time' in user:
-            unit = self.dataset.time.unit
-            data = numpy.array(user['time'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.time.axes,
+            return _assumed_coordinates(
+                'time',
+                user['time'],
+                self.dataset.time.unit,
             )
         return self.functions.time(time=user.time)
 
@@ -1178,12 +1190,10 @@ class Quantities(collections.abc.Mapping):
     def _energy(self, user: Arguments):
         """Callback method for particle energies per nucleon."""
         if 'energy' in user:
-            unit = self.dataset.energy.unit
-            data = numpy.array(user['energy'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.energy.axes,
+            return _assumed_coordinates(
+                'energy',
+                user['energy'],
+                self.dataset.energy.unit,
             )
         return self.functions.energy(energy=user.energy)
 
@@ -1216,12 +1226,10 @@ class Quantities(collections.abc.Mapping):
     def _mu(self, user: Arguments):
         """Callback method for pitch-angle cosines."""
         if 'mu' in user:
-            unit = self.dataset.mu.unit
-            data = numpy.array(user['mu'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.mu.axes,
+            return _assumed_coordinates(
+                'mu',
+                user['mu'],
+                self.dataset.mu.unit,
             )
         return self.functions.mu(mu=user.mu)
 
-- 
2.43.0


From daa0d35f1dbe9f12b27ef9fbd69cf03c1d05984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 056/184] fix: compute rigidity and mean free path at the
 requested energies

---
 src/eprempy/observable/_interfaces.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 1a7e3f2..c20671e 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -101,8 +101,18 @@ class Implementations:
         """Compute the output times."""
         return self.dataset.time[_normalize_indices(time or slice(None))]
 
-    def energy(self, energy=None) -> physical.Array:
+    def energy(
+        self,
+        energy=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the particle energies."""
+        if assumptions and 'energy' in assumptions:
+            return _assumed_coordinates(
+                'energy',
+                assumptions['energy'],
+                self.dataset.energy.unit,
+            )
         return self.dataset.energy[_normalize_indices(energy or slice(None))]
 
     def v(self, energy=None) -> physical.Array:
@@ -472,6 +482,7 @@ class Implementations:
         self,
         species=None,
         energy=None,
+        assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the magnetic rigidity.
 
@@ -485,7 +496,7 @@ class Implementations:
         return self._compute_rigidity(
             self.mass(species=species),
             self.charge(species=species),
-            self.energy(energy=energy),
+            self.energy(energy=energy, assumptions=assumptions),
         )
 
     def _compute_rigidity(
@@ -525,7 +536,7 @@ class Implementations:
         assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the mean free path."""
-        e = self.energy(energy=energy)
+        e = self.energy(energy=energy, assumptions=assumptions)
         m = self.mass(species=species)
         q = self.charge(species=species)
         rg = self._compute_rigidity(m, q, e)
@@ -1665,6 +1676,7 @@ class Quantities(collections.abc.Mapping):
         return self.functions.rigidity(
             species=user.species,
             energy=user.energy,
+            assumptions=user.assumptions,
         )
 
     @property
-- 
2.43.0


From 724d89094487a2056718c8483fdb5fce4435e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 057/184] fix: refuse unit-inconsistent or out-of-bounds shell
 indices

---
 src/eprempy/observable/_objects.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 6842e5b..da0b2d3 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -348,9 +348,12 @@ class Context:
 
     def _parse_user_arg(self, k: str, v):
         """Convert a given argument into the appropriate object."""
-        if quantity.isindexlike(v):
-            return numeric.index.sequence(v)
         name = reference.AXES.names.get(k, k)
+        if quantity.isindexlike(v):
+            indices = numeric.index.sequence(v)
+            if name in self.axes:
+                return self._bound_indices(indices, len(self.axes[name]))
+            return indices
         if name in self.axes:
             axis = self.axes[name]
             if isinstance(v, slice):
@@ -366,6 +369,16 @@ class Context:
             f"Argument {k!r} is either unknown or has invalid type"
         ) from None
 
+    def _bound_indices(self, indices: numeric.index.Sequence, size: int):
+        """Convert axis indices to their equivalent in [0, size)."""
+        for index in indices:
+            if not -size <= index < size:
+                raise IndexError(
+                    f"Index {index} is out of bounds for axis"
+                    f" with size {size}"
+                ) from None
+        return numeric.index.sequence([int(i) % size for i in indices])
+
     @property
     def operator(self):
         """The observing function."""
@@ -471,10 +484,14 @@ class Quantity:
         shell = axes.get('shell', slice(None))
         if isinstance(shell, slice):
             return 'shell', shell
+        if quantity.isindexlike(shell):
+            return 'shell', shell
         s = quantity.measure(shell)
-        if not quantity.isindexlike(s) and s.unit.quantity == 'length':
+        if s.unit.quantity == 'length':
             return 'radius', physical.coordinates(s)
-        return 'shell', physical.points(numpy.array(s))
+        raise ValueError(
+            f"{shell} represents neither shell indices nor radii"
+        ) from None
 
     def __eq__(self, other):
         """Called for self == other."""
-- 
2.43.0


From bc663ce6a7a02a7d863c08c9e28c2da0150ccb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 058/184] fix: support observing multiple species by symbol

---
 src/eprempy/observable/_objects.py | 4 +++-
 src/eprempy/physical/_axis.py      | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index da0b2d3..d6cd0e0 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -475,7 +475,9 @@ class Quantity:
 
     def _normalize(self, args):
         """Observable-specific index normalization."""
-        if self.ndim == 1 and quantity.ismeasurable(args):
+        if self.ndim == 1 and (
+            isinstance(args, list) or quantity.ismeasurable(args)
+        ):
             return numeric.index.expand(self.ndim, [args])
         return numeric.index.expand(self.ndim, args)
 
diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 8ca2109..5ca3962 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -213,6 +213,8 @@ class Symbols(Axis[typing.List[str]]):
     def index(self, *targets: T):
         if not targets:
             return self.indices
+        if len(targets) == 1 and isinstance(targets[0], (list, tuple)):
+            targets = targets[0]
         if not all(isinstance(target, str) for target in targets):
             raise AxisTypeError(
                 "All index targets must be strings"
-- 
2.43.0


From cd9ecd0910138e80bb9cafb1d6e049f63b93c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 059/184] fix: honor empty slices when observing a quantity

---
 src/eprempy/observable/_interfaces.py | 31 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index c20671e..6a2a82e 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -99,7 +99,7 @@ class Implementations:
 
     def time(self, time=None) -> physical.Array:
         """Compute the output times."""
-        return self.dataset.time[_normalize_indices(time or slice(None))]
+        return self.dataset.time[_normalize_indices(_or_all(time))]
 
     def energy(
         self,
@@ -113,23 +113,23 @@ class Implementations:
                 assumptions['energy'],
                 self.dataset.energy.unit,
             )
-        return self.dataset.energy[_normalize_indices(energy or slice(None))]
+        return self.dataset.energy[_normalize_indices(_or_all(energy))]
 
     def v(self, energy=None) -> physical.Array:
         """Compute the particle speeds."""
-        return self.dataset.v[_normalize_indices(energy or slice(None))]
+        return self.dataset.v[_normalize_indices(_or_all(energy))]
 
     def mu(self, mu=None) -> physical.Array:
         """Compute the particle pitch-angle cosines."""
-        return self.dataset.mu[_normalize_indices(mu or slice(None))]
+        return self.dataset.mu[_normalize_indices(_or_all(mu))]
 
     def mass(self, species=None) -> physical.Array:
         """Compute the mass of each species."""
-        return self.dataset.mass[_normalize_indices(species or slice(None))]
+        return self.dataset.mass[_normalize_indices(_or_all(species))]
 
     def charge(self, species=None) -> physical.Array:
         """Compute the charge of each species."""
-        return self.dataset.charge[_normalize_indices(species or slice(None))]
+        return self.dataset.charge[_normalize_indices(_or_all(species))]
 
     ## -- primary observable quantities --
     # Each method accepts only the indices corresponding to the dataset
@@ -913,10 +913,10 @@ class Implementations:
     ) -> physical.Array:
         """Subscript the array based on user indices."""
         # Each value represents the user-provided indices, if available, or a
-        # full slice. The use of `user.indices.get(d) or slice(None)` instead of
-        # `user.indices.get(d, slice(None))` forces a slice even if
-        # `user.indices[d] == None`.
-        axes = tuple(indices.get(d) or slice(None) for d in x.dimensions)
+        # full slice. The use of `_or_all(indices.get(d))` instead of
+        # `indices.get(d, slice(None))` forces a slice even if `indices[d] is
+        # None`.
+        axes = tuple(_or_all(indices.get(d)) for d in x.dimensions)
         return x[_normalize_indices(*axes)]
 
     def _interpolate(
@@ -943,9 +943,9 @@ class Implementations:
         axes = tuple(
             # Each value represents the user-provided indices, if available, or
             # the default indices for the corresponding dimension of `x`. The
-            # use of `user.indices.get(d) or i` instead of `user.indices.get(d,
-            # i)` forces the default value even if `user.indices[d] == None`.
-            i if d in finished else indices.get(d) or i
+            # test of `indices.get(d) is None` forces the default value even if
+            # `indices[d] is None`.
+            i if d in finished or indices.get(d) is None else indices[d]
             for d, i in default.items()
         )
         return base[_normalize_indices(*axes)]
@@ -1046,6 +1046,11 @@ class Implementations:
         return self._grid
 
 
+def _or_all(index):
+    """Return `index` unless it is `None`; otherwise, return a full slice."""
+    return slice(None) if index is None else index
+
+
 def _normalize_indices(*args):
     """Normalize array-indexing objects."""
     if all(isinstance(v, numeric.index.Value) for v in args):
-- 
2.43.0


From 7bbd0199d0cec4e3a4b42a4939160e9cc5e664ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 060/184] fix: combine arrays that have an empty dimension

---
 src/eprempy/numeric/_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 7051ad2..da17afd 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -781,7 +781,7 @@ def remesh(a: Array, b: Array):
     for d in dimensions:
         adim = a.shapemap.get(d, 1)
         bdim = b.shapemap.get(d, 1)
-        if adim > 1 and bdim > 1 and adim != bdim:
+        if adim != 1 and bdim != 1 and adim != bdim:
             # NOTE: This acts like the `ValueError` raised when attempting
             # to broadcast two `numpy` arrays with inconsistent shapes.
             raise ValueError(
@@ -795,8 +795,9 @@ def remesh(a: Array, b: Array):
         # NOTE: This creates the maximal shape in order to handle cases in
         # which the input arrays have matching dimensions but one array is
         # singular. The previous implementation would always overwrite the
-        # size of matching dimensions in `a` with those of `b`.
-        max(a.shapemap.get(d, 1), b.shapemap.get(d, 1))
+        # size of matching dimensions in `a` with those of `b`. A singular
+        # dimension also matches an empty one.
+        b.shapemap.get(d, 1) if a.shapemap.get(d, 1) == 1 else a.shapemap[d]
         for d in dimensions
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
-- 
2.43.0


From 938c53c89cc0605a7158530cb47a84f7ec364496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 061/184] =?UTF-8?q?fix:=20allow=20the=20metric=20symbols?=
 =?UTF-8?q?=20=CE=BC=20and=20=CE=A9=20in=20symbolic=20terms?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Every unit with a micro- prefix, and every unit based on the ohm, was unusable
in a unit expression because its symbol was not a valid base.
---
 src/eprempy/symbolic/_operand.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bd503c2..447f814 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -135,8 +135,8 @@ class OperandFactory(_part.Factory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
+        \d*           # followed by optional digits
     """
 
     def __init__(
@@ -656,8 +656,8 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
+        \d*           # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
 
-- 
2.43.0


From c68479456673a811c5171b21849713401a5d4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 062/184] fix: read arrays whose unit is ambiguous between
 metric systems

Converting to a metric system by name requires knowing the physical quantity
when the unit is, for example, 's', 'cm', or 'cm / s'.
---
 src/eprempy/datafile/_interfaces.py   | 8 ++++++--
 src/eprempy/observable/_interfaces.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index 494fb1b..f76d1f3 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -138,7 +138,9 @@ class Axes(typing.Mapping[str, physical.Axis]):
             numpy.array(base.data),
             unit=metric.standardize(base.unit),
         )
-        return array.withunit(unit or str(self.system))
+        return array.withunit(
+            unit or metric.normalize(array.unit, str(self.system))
+        )
 
     @property
     def view(self):
@@ -358,7 +360,9 @@ class Arrays:
             unit=metric.standardize(base.unit),
             axes=physical.axes(axes),
         )
-        return array.withunit(unit or str(self.system))
+        return array.withunit(
+            unit or metric.normalize(array.unit, str(self.system))
+        )
 
     @property
     def hasdist(self):
diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 6a2a82e..e63c576 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1006,7 +1006,7 @@ class Implementations:
         except StopIteration:
             return interpolants
         if value := assumptions.get(key):
-            m = quantity.measure(value).withunit(str(self.system))
+            m = quantity.measure(value).withunit(c.unit)
             for v in m:
                 _check_interpolation_bounds(name, v, a)
             interpolants[key] = Interpolant(
-- 
2.43.0


From e6d2e4f5d5e22316419a1dea1bfd54f0e45ab4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 063/184] fix: keep perpendicular flow real when the flow is
 along the field

---
 src/eprempy/observable/_interfaces.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index e63c576..e2f5f37 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -415,9 +415,17 @@ class Implementations:
         umag = self.umag(time, shell, assumptions)
         upara = self.upara(time, shell, assumptions)
         uperpsqr = umag**2 - upara**2
+        # NOTE: The parallel component may exceed the magnitude by a rounding
+        # error when the flow is along the field.
+        arg = numpy.array(uperpsqr)
+        arg[arg < 0.0] = 0.0
         # NOTE: Intermediate methods have already restricted the result via
         # subscription or interpolation.
-        return numpy.sqrt(uperpsqr)
+        return physical.array(
+            numpy.sqrt(arg),
+            unit=uperpsqr.unit ** 0.5,
+            axes=uperpsqr.axes,
+        )
 
     def upara(
         self,
-- 
2.43.0


From 7507d4754829cb485ded33f117e7e6a8ba7fa6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 064/184] fix: match the whole token that raises a symbol to a
 power

Escaping only the first character turned '**' into a pattern for any number of
asterisks, so that 'a*2' meant 'a**2'.
---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 447f814..228b972 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -145,7 +145,7 @@ class OperandFactory(_part.Factory):
         closing: str=')',
         raising: str='^',
     ) -> None:
-        exponent = fr'\{raising}{self.rational}'
+        exponent = fr'{re.escape(raising)}{self.rational}'
         self.patterns = {
             'constant': re.compile(
                 fr'(?P<coefficient>{self.rational})'
@@ -167,7 +167,7 @@ class OperandFactory(_part.Factory):
             'exponent': re.compile(exponent, re.VERBOSE),
             'opening': re.compile(fr'\{opening}', re.VERBOSE),
             'closing': re.compile(fr'\{closing}', re.VERBOSE),
-            'raising': re.compile(fr'\{raising}', re.VERBOSE)
+            'raising': re.compile(re.escape(raising))
         }
         """Compiled regular expressions for symbolic operands."""
 
-- 
2.43.0


From f29947ee0a638db385693c23a8c573695dc8d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 065/184] fix: compute powers of observable quantities

The exponent is a number, so it does not support subscription by the user's
arguments.
---
 src/eprempy/observable/_objects.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index d6cd0e0..b29b011 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -558,12 +558,10 @@ class Quantity:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         unit = self.unit ** other
-        return self._apply(
-            builtins.pow,
-            other,
-            unit,
-            self.dimensions,
-        )
+        def __f(user: Arguments):
+            return builtins.pow(self[user], other)
+        context = Context(__f, self.context.axes, self.context.grid)
+        return Quantity(context, unit, self.dimensions)
 
     def _unequal_metadata(self, other):
         """Return names of unequal metadata attributes."""
-- 
2.43.0


From f8a1852b947899811c5e09e966dd1ca5035a8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 066/184] fix: convert unit expressions consistently via their
 dimensions

Pairing terms with opposite exponents, then cancelling their reductions without
regard to scale, gave incorrect factors that depended on the order of metric
systems in a set (e.g., 'm^2 s^-1' to 'au km s^-1'), gave a factor of 1 for
plane angles (e.g., 'deg / s' to 'rad / s'), and failed to relate units that
were each prefixed (e.g., 'keV' to 'kJ').
---
 src/eprempy/metric/_conversions.py | 153 +++++++----------------------
 1 file changed, 34 insertions(+), 119 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 312e394..7c09cea 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -2,7 +2,6 @@
 Internal support for unit conversions.
 """
 
-import numbers
 import typing
 
 from .. import etc
@@ -165,14 +164,10 @@ def _convert_as_expressions(u0: str, u1: str):
     e0, e1 = (symbolic.expression(unit) for unit in (u0, u1))
     if e0 == e1:
         return 1.0
-    terms = [
-        term for term in (e0 / e1).terms
-        if term.base not in _reference.UNITY
-    ]
-    if factor := _resolve_terms(terms):
-        return factor
-    if factor := _convert_by_dimensions(terms):
-        return factor
+    terms = (e0 / e1).terms
+    for system in sorted(_reference.SYSTEMS, reverse=True):
+        if factor := _convert_by_dimensions(terms, system):
+            return factor
 
 
 def _simple_conversion(u0: str, u1: str, scale: float=1.0):
@@ -281,123 +276,43 @@ def _get_aliases_of(unit: str):
     return built
 
 
-def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
-    """Attempt to compute a conversion via unit dimensions."""
+def _convert_by_dimensions(terms: typing.List[symbolic.Term], system: str):
+    """Attempt to compute a conversion via unit dimensions in `system`.
+
+    This function represents each term by the canonical unit of the same
+    quantity in the given metric system. If the product of all those units has
+    no dimension, the conversion factor is the product of all the numerical
+    factors.
+    """
     factor = 1.0
-    decomposed = []
+    total = symbolic.expression('1')
     for term in terms:
-        if decomposition := _decompose_unit(term):
-            scale, units = decomposition
-            decomposed.extend(units)
-            factor *= scale
-    if symbolic.expression(decomposed) == '1':
-        return factor
-    cancelled = _cancel_terms(decomposed)
-    reduced = _reduce_terms(cancelled)
-    if result := _resolve_terms(reduced):
-        return factor * result
-
-
-def _decompose_unit(term: symbolic.Term):
-    """Convert a unit into fundamental units, if possible."""
-    exponent = term.exponent
-    if reduction := _reduce_unit(term.base, exponent):
-        return 1.0, reduction
-    for system in _reference.SYSTEMS:
-        norm = _defined.NamedUnit(term.base).norm[system]
-        if reduction := _reduce_unit(norm.symbol, exponent):
-            if factor := _convert_as_strings(term.base, norm.symbol):
-                return factor**exponent, reduction
-
-
-def _reduce_unit(base: str, exponent: numbers.Real):
-    """Compute the equivalent expression in fundamental units, if possible."""
-    if reduction := _defined.NamedUnit(base).reduce():
-        return [
-            symbolic.term(
-                coefficient=reduction.scale**exponent,
-                base=this.base,
-                exponent=exponent*this.exponent,
-            )
-            for this in reduction.units
-        ]
-
-
-def _cancel_terms(terms: typing.List[symbolic.Term]):
-    """Cancel out terms with equal magnitude and opposite exponent."""
-    # TODO: Reduce redundancy with `_resolve_terms`.
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            inverse_powers = [
-                term for term in terms
-                if term != target and term.exponent == -target.exponent
-            ]
-            for term in inverse_powers:
-                if term.base == target.base:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-    return unmatched
-
-
-def _resolve_terms(terms: typing.List[symbolic.Term]):
-    """Compute ratios of terms with comparable exponents, if possible."""
-    # TODO: Reduce redundancy with `_cancel_terms`.
-    if len(terms) <= 1:
-        # We require at least two terms for a ratio.
-        return
-    factor = 1.0
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            if match := _match_exponents(target, unmatched):
-                value, term = match
-                if term != target:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-                else:
-                    matched.append(target)
-                    unmatched.remove(target)
-                factor *= value
-    if not unmatched:
+        canonical = _canonical_unit(term.base, system)
+        if canonical is None:
+            return
+        scale, dimension = canonical
+        factor *= float(term.coefficient) * scale ** float(term.exponent)
+        total *= symbolic.expression(dimension) ** term.exponent
+    if total == '1':
         return factor
 
 
-def _reduce_terms(terms: typing.List[symbolic.Term]):
-    """Partially or fully cancel terms with equal bases."""
-    return symbolic.expression(terms).terms
-
+def _canonical_unit(base: str, system: str):
+    """Compute the scale and dimension of a named unit in `system`.
 
-def _match_exponents(
-    target: symbolic.Term,
-    terms: typing.Iterable[symbolic.Term],
-) -> typing.Optional[typing.Tuple[float, symbolic.Term]]:
-    """Attempt to convert `target` to a term in `terms` by exponent.
-
-    This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`. If
-    that check fails, this function compares `target` to each term in `terms`
-    that has an exponent with the same magnitude and opposite sign. If it can
-    convert the base unit of `target` to the base unit of a term in `terms`, it
-    will return the corresponding conversion factor and the matching term.
+    The scale is the numerical factor that converts this unit to the canonical
+    unit of the same quantity in `system`, if it exists.
     """
-    u0 = target.base
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
-    exponent = target.exponent
-    inverse_powers = [
-        term for term in terms
-        if term != target and term.exponent == -exponent
-    ]
-    for term in inverse_powers:
-        u1 = term.base
-        if conversion := _convert_as_strings(u0, u1):
-            return conversion ** exponent, term
+    try:
+        unit = _defined.NamedUnit(base)
+    except _exceptions.UnitParsingError:
+        return
+    canonical = _defined.UNITS[unit.quantity][system]
+    dimension = _defined.DIMENSIONS[unit.quantity][system]
+    if scale := _convert_as_strings(unit.symbol, canonical):
+        return scale, dimension
+    if dimension == '1':
+        return 1.0, dimension
 
 
 @etc.autostr
-- 
2.43.0


From 4f3e895c29678320c926ac6e2a5beda78df95f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 067/184] fix: correct the name of a quantity, so that the lux
 has dimensions

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 09a2544..7fabcea 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -491,7 +491,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From b8631661f4a8920c0121093375af4db173fb8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 068/184] fix: convert electromagnetic units only to units of
 the same quantity

Falling back to the Gaussian system related, e.g., the weber to the statcoulomb,
and ignored the metric prefix of dimensionless units.
---
 src/eprempy/metric/_conversions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 7c09cea..6fff9c1 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -308,11 +308,25 @@ def _canonical_unit(base: str, system: str):
     except _exceptions.UnitParsingError:
         return
     canonical = _defined.UNITS[unit.quantity][system]
-    dimension = _defined.DIMENSIONS[unit.quantity][system]
+    dimensions = _defined.DIMENSIONS[unit.quantity]
+    dimension = dimensions[system]
+    if system != 'mks' and len(set(dimensions.values())) > 1:
+        # Converting a unit of an electromagnetic quantity into another system
+        # would relate it to units of physically different quantities.
+        if unit.base != _get_base(canonical):
+            return
     if scale := _convert_as_strings(unit.symbol, canonical):
         return scale, dimension
     if dimension == '1':
-        return 1.0, dimension
+        return unit.scale, dimension
+
+
+def _get_base(unit: str):
+    """Get the metric base of this unit, if it is a named unit."""
+    try:
+        return _defined.NamedUnit(unit).base
+    except _exceptions.UnitParsingError:
+        return
 
 
 @etc.autostr
-- 
2.43.0


From c26df96d40de0ec22621b37f5dd4db686a53fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 069/184] fix: define the metric units of a ratio of identical
 quantities

Converting, e.g., 'au / km' to a metric system caused infinite recursion.
---
 src/eprempy/metric/_defined.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index d351264..a87c9fd 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -86,6 +86,9 @@ class _Property(collections.abc.Mapping):
         entry, it will attempt to create the equivalent `dict` by symbolically
         evaluating the terms in the entry.
         """
+        if quantity == '1':
+            # This is the symbolic ratio of a quantity to itself.
+            return self['identity']
         if quantity not in _reference._QUANTITIES:
             return self._parse(quantity)
         q = _reference._QUANTITIES[quantity]
-- 
2.43.0


From b54acc0add8dea029ed2c439eb61ea3ddb51aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 070/184] fix: convert between named units regardless of their
 metric prefixes

---
 src/eprempy/metric/_conversions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 6fff9c1..daf5aef 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -120,6 +120,13 @@ def _convert_as_strings(u0: str, u1: str) -> typing.Optional[float]:
     checked = []
     if factor := _recursive_conversion(checked, u0, u1):
         return factor
+    if u0 in _reference.NAMED_UNITS and u1 in _reference.NAMED_UNITS:
+        # Convert between the corresponding units without metric prefixes.
+        n0, n1 = (_defined.NamedUnit(u) for u in (u0, u1))
+        checked = []
+        b0, b1 = n0.base.symbol, n1.base.symbol
+        if factor := _recursive_conversion(checked, b0, b1):
+            return factor * n0.scale / n1.scale
 
 
 def _recursive_conversion(
-- 
2.43.0


From 057a2d47b95b9d2608637b56002bd64209f89317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 071/184] fix: do not replace a symbolic coefficient or
 exponent of 0 by 1

For example, raising a unit to the power 0 left the unit as it was.
---
 src/eprempy/symbolic/_operand.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 228b972..ac94918 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -16,6 +16,14 @@ class OperandValueError(ValueError):
     """Value error associated with a symbolic operand."""
 
 
+def _or_unity(value):
+    """Get this value, or 1 if the value is missing.
+
+    Note that 0 is a valid coefficient or exponent.
+    """
+    return 1 if value is None or value == '' else value
+
+
 @etc.autostr
 class Operand(_part.Part):
     """An operand in a symbolic expression.
@@ -68,11 +76,11 @@ class Operand(_part.Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(_or_unity(coefficient))
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(_or_unity(exponent))
         """The numerical exponent."""
 
     @property
@@ -580,13 +588,14 @@ class OperandFactory(_part.Factory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
-            for key, attr in updatable.items()
+            key: attr['callable'](
+                default[key] if given.get(key) in (None, '') else given[key]
+            ) for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(_or_unity(v))
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -596,7 +605,7 @@ class OperandFactory(_part.Factory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(_or_unity(v))
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From 1b0d52396ae3486f0c5e3477ba6fe0b7ecb2f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 072/184] fix: match all digits of the denominator of a
 symbolic rational number

---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index ac94918..0157954 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -136,7 +136,7 @@ class OperandFactory(_part.Factory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -658,7 +658,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From bd6102fa854d74f9e1cf8a5d88dec815c2f986f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 073/184] fix: take the square root of a symbolic operand after
 another operator

The expression 'a * sqrt(b)' represented a product of 'a', 'sqrt' and 'b'.
---
 src/eprempy/symbolic/_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_parser.py b/src/eprempy/symbolic/_parser.py
index 66de152..09be561 100644
--- a/src/eprempy/symbolic/_parser.py
+++ b/src/eprempy/symbolic/_parser.py
@@ -181,8 +181,15 @@ class Parser:
         current: Iteration,
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
-        if parsed := self.operands.parse(current.string):
-            current.operand = parsed.result ** initial.exponent
+        string = current.string
+        exponent = initial.exponent
+        if parsed := self.operators.parse(string):
+            # An operator after another operator can only apply to the operand.
+            if parsed.result == 'sqrt':
+                exponent = exponent / 2
+                string = parsed.remainder
+        if parsed := self.operands.parse(string):
+            current.operand = parsed.result ** exponent
             current.string = parsed.remainder
         return current
 
-- 
2.43.0


From e1ef2fda98fa76a4bae7b59499a09b46d19dd97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 074/184] fix: divide by the coefficient and the group that it
 multiplies alike

The expression 'a / 2(b)' represented half of the product of 'a' and 'b', unlike
'a / 2b'.
---
 src/eprempy/symbolic/_operand.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 0157954..9bad759 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -433,8 +433,19 @@ class OperandFactory(_part.Factory):
             return build_method(matches[key])
         for key, match in matches.items():
             if match:
+                if key == 'constant' and self._is_coefficient(match):
+                    return
                 return self._get_build_method(key)(match)
 
+    def _is_coefficient(self, match: re.Match):
+        """True if this match is the coefficient of a bounded substring."""
+        remainder = match.string[match.end():]
+        return (
+            match['exponent'] is None
+            and bool(self.patterns['opening'].match(remainder))
+            and self.find_bounds(remainder) is not None
+        )
+
     def _get_match_method(
         self,
         pattern: str,
-- 
2.43.0


From e2d2b11087c8ca4b06331cd70cf27dd129d612f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 075/184] fix: keep symbolic rational constants exact

For example, '1/3 * 3a' was not equal to 'a'.
---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 9bad759..4af0fb8 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -474,7 +474,7 @@ class OperandFactory(_part.Factory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return _part.Match(
-            result=term_factory(coefficient=float(coefficient)),
+            result=term_factory(coefficient=coefficient),
             context=match,
         )
 
-- 
2.43.0


From eb7266a069d9790b04239c67eb115fe0c1e9a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 076/184] fix: refuse to create a unit from an expression with
 a numerical factor

The unit '2 m' became '1 m', which silently changed quantities by a factor of 2.
---
 src/eprempy/metric/_units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 60c6fd5..ffa60bd 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -409,6 +409,9 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
         return available
     # First time through: create a symbolic expression from `arg`.
     expression = symbolic.expression(arg)
+    if any(term.coefficient != 1 for term in expression):
+        # Dropping a numerical factor would change the meaning of this unit.
+        raise ValueError(f"Cannot create a unit from {arg!r}") from None
     # The canonical string representation of this unit is the expression
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
-- 
2.43.0


From 9522f798e012fc9f99e4c70d5134377383c1281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 077/184] fix: order the terms of a unit by their symbols, not
 by their given names

---
 src/eprempy/metric/_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index ffa60bd..8e7b9e8 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -416,7 +416,7 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
     symbols = [_as_symbol(term) for term in expression]
-    instance = Unit(symbols)
+    instance = Unit(symbolic.reduce(symbols))
     name = str(instance)
     if name in _units:
         # It turns out that the argument corresponds to an existing unit.
-- 
2.43.0


From 2de4d34270b33c6db99059d707a4ca5fc22b3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 078/184] fix: identify observers by all of what follows the
 prefix of their file name

---
 src/eprempy/eprem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index dfe0f77..918d765 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -413,10 +413,10 @@ def _get_observer_id(path: pathlib.Path):
     prefixes = Stream.prefixes | Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
-            key = stem.lstrip(prefix)
+            key = stem[len(prefix):]
             if prefix in Stream.prefixes:
                 return int(key)
-            return key
+            return key.lstrip('_')
     raise ValueError(path)
 
 
-- 
2.43.0


From 05d6b067a812033357b19e322bafaa10a9ad6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 079/184] fix: ignore files that are not stream observers, such
 as 'observations.nc'

---
 src/eprempy/eprem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 918d765..838063b 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -349,6 +349,7 @@ class Dataset:
                 for prefix in Stream.prefixes
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
+                and path.stem[len(prefix):].isdecimal()
             ]
             self._streams = {
                 _get_observer_id(path): self._new_observer(path, Stream)
-- 
2.43.0


From 479cf9497db8cbd75f5cdbfe2529b9db10bcac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 080/184] fix: find observer files in an order that does not
 depend on the hash seed

---
 src/eprempy/eprem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 838063b..3b675c4 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -143,7 +143,7 @@ ObserverType = typing.TypeVar('ObserverType', bound=Observer)
 class Stream(Observer):
     """An EPREM stream observer."""
 
-    prefixes = {'stream', 'obs', 'flux'}
+    prefixes = ('stream', 'obs', 'flux')
 
     @classmethod
     def patterns(cls, __id: int) -> typing.List[str]:
@@ -174,7 +174,7 @@ class Stream(Observer):
 class Point(Observer):
     """An EPREM point observer."""
 
-    prefixes = {'point', 'p_obs'}
+    prefixes = ('point', 'p_obs')
 
     @classmethod
     def patterns(cls, __id: typing.Union[str, int]) -> typing.List[str]:
@@ -258,7 +258,7 @@ def observer(
             f"Cannot create observer from ID type {type(__id)}"
         ) from None
     if isinstance(__id, int):
-        patterns = (f'{prefix}{__id:06}.*' for prefix in {'obs', 'flux'})
+        patterns = (f'{prefix}{__id:06}.*' for prefix in ('obs', 'flux'))
         return _create_observer(Stream, patterns, config, source, system)
     patterns = []
     with contextlib.suppress(ValueError):
@@ -351,9 +351,11 @@ class Dataset:
                 if path.suffix in datafile.VIEWERS
                 and path.stem[len(prefix):].isdecimal()
             ]
+            # The first path for a given ID takes precedence, as it does when
+            # creating an individual observer.
             self._streams = {
                 _get_observer_id(path): self._new_observer(path, Stream)
-                for path in obspaths
+                for path in reversed(obspaths)
             }
         return self._streams
 
@@ -369,7 +371,7 @@ class Dataset:
             ]
             self._points = {
                 _get_observer_id(path): self._new_observer(path, Point)
-                for path in obspaths
+                for path in reversed(obspaths)
             }
         return self._points
 
@@ -411,7 +413,7 @@ class Dataset:
 def _get_observer_id(path: pathlib.Path):
     """Compute the appropriate observer ID for the given path."""
     stem = path.stem
-    prefixes = Stream.prefixes | Point.prefixes
+    prefixes = Stream.prefixes + Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
             key = stem[len(prefix):]
-- 
2.43.0


From e7fccf68b08f0dcc0cc02b7840247a025ad4bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 081/184] fix: accept the name of the config file as a path

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 3b675c4..226940a 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -483,7 +483,7 @@ def _build_confpath(
         ) from None
     this = pathlib.Path(config)
     full = (
-        directory / config if this.name == config # file name only
+        directory / config if this.name == str(config) # file name only
         else paths.fullpath(this, strict=True) # full or relative path
     )
     if full.exists():
-- 
2.43.0


From e4c9fd89ec6a22ef237f8089db29c8492aaf5eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 082/184] fix: ignore files that are not datafiles when
 locating an observer

---
 src/eprempy/eprem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 226940a..b351247 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -449,7 +449,10 @@ def _build_datapath(
 ) -> pathlib.Path:
     """Create the full path to an observer's data file, if possible."""
     for pattern in patterns:
-        filenames = list(directory.glob(pattern))
+        filenames = [
+            path for path in directory.glob(pattern)
+            if path.suffix in datafile.VIEWERS
+        ]
         if len(filenames) == 1:
             return paths.fullpath(directory / filenames[0], strict=True)
         if len(filenames) > 1:
-- 
2.43.0


From 3e7ee2a09d8e4c775025008596bc870cc175b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 083/184] fix: read energy grids that have a single step

---
 src/eprempy/datafile/_interfaces.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index f76d1f3..ad353df 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -112,8 +112,9 @@ class Axes(typing.Mapping[str, physical.Axis]):
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            data = numpy.squeeze(self._create('egrid'))
-            self._energy = physical.coordinates(data)
+            data = self._create('egrid')
+            dimensions = self.view.arrays['egrid'].dimensions
+            self._energy = physical.coordinates(_squeeze(data, dimensions))
         return self._energy
 
     @property
@@ -224,14 +225,16 @@ class Arrays:
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            self._energy = numpy.squeeze(self._create('egrid'))
+            array = self._create('egrid')
+            self._energy = _squeeze(array, array.dimensions)
         return self._energy
 
     @property
     def v(self) -> physical.Array:
         """The particle speeds."""
         if self._v is None:
-            self._v = numpy.squeeze(self._create('vgrid'))
+            array = self._create('vgrid')
+            self._v = _squeeze(array, array.dimensions)
         return self._v
 
     @property
@@ -472,6 +475,18 @@ class Grid:
         return self._arrays.system
 
 
+def _squeeze(
+    array: physical.Tensor,
+    dimensions: typing.Iterable[str],
+) -> physical.Tensor:
+    """Remove singular dimensions, other than energy, from an array."""
+    axis = tuple(
+        i for i, (name, size) in enumerate(zip(dimensions, array.shape))
+        if name != 'energy' and size == 1
+    )
+    return numpy.squeeze(array, axis=axis) if axis else array
+
+
 def axes_factory(
     source: paths.PathLike,
     system: typing.Optional[typing.Union[str, metric.System]]=None,
-- 
2.43.0


From f5a1516d97ca89ba4b3864670d08d8dcbb8de062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 084/184] fix: provide only axes via the mapping interface to
 axes

---
 src/eprempy/datafile/_interfaces.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index ad353df..518a832 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -66,13 +66,11 @@ class Axes(typing.Mapping[str, physical.Axis]):
 
     def __getitem__(self, __k: str):
         """Called for key-based access."""
-        try:
-            axis = getattr(self, __k)
-        except AttributeError as err:
+        if __k not in AXES:
             raise KeyError(
                 f"No axis named {__k!r} in {self.view!r}"
-            ) from err
-        return axis
+            ) from None
+        return getattr(self, __k)
 
     def __len__(self) -> int:
         """Called for len(self)."""
-- 
2.43.0


From 5141c754ba0d8a516fa4b68aaccfb483e3d3ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 085/184] fix: do not reuse a view of a file that was created
 with another hint

---
 src/eprempy/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 55b8135..6d067bd 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -81,7 +81,8 @@ class PathSet(etc.InstanceSet):
         if path is None and len(args) >= 1:
             path = args[0]
         if isinstance(path, (str, pathlib.Path)):
-            return path
+            others = {k: v for k, v in kwargs.items() if k != 'path'}
+            return self, str(path), args[1:], tuple(sorted(others.items()))
         return super()._generate_key(*args, **kwargs)
 
 
-- 
2.43.0


From 4e00133183428416c17a09003ad482f3af0ea925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 086/184] fix: keep the values of very large and very small
 numbers in expressions

---
 src/eprempy/symbolic/_expression.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 9a08891..fc5088d 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -1,5 +1,6 @@
 import collections
 import collections.abc
+import decimal
 import fractions
 import functools
 import numbers
@@ -378,9 +379,21 @@ def standard(
     try:
         iter(this)
     except TypeError:
-        return str(this)
+        return _as_string(this)
     else:
-        return joiner.join(f"({part})" for part in this)
+        return joiner.join(f"({_as_string(part)})" for part in this)
+
+
+def _as_string(this) -> str:
+    """Convert a single part of an expression to a string.
+
+    This function writes out real numbers because the letter in scientific
+    notation (e.g., '1e-06') would represent a symbolic variable.
+    """
+    string = str(this)
+    if isinstance(this, numbers.Real) and 'e' in string.lower():
+        return format(decimal.Decimal(string), 'f')
+    return string
 
 
 def _init_terms(
-- 
2.43.0


From b8d7dbf28c56d47cb70935aa626c8e47cd21a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 087/184] fix: scale a reduction of units only once

---
 src/eprempy/metric/_defined.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index a87c9fd..fb6b1f2 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -288,7 +288,8 @@ class Reduction:
         scale: float=1.0,
         system: str=None,
     ) -> None:
-        self._expression = scale * symbolic.expression(terms)
+        self._terms = symbolic.expression(terms)
+        self._expression = scale * self._terms
         self.system = system
         self.scale = scale
         self._units = None
@@ -308,8 +309,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self._terms, scale=scale, system=self.system)
 
     __rmul__ = __mul__
     """Called for other * self."""
@@ -319,16 +319,14 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self._terms, scale=scale, system=self.system)
 
     def __pow__(self, other):
         """Called for self ** other."""
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self._terms**other, scale=scale, system=self.system)
 
     def __str__(self) -> str:
         return f"{self._expression} [{self.system!r}]"
-- 
2.43.0


From a8492a2be092bb3e479c27f2101f7317b92e1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 088/184] fix: report unknown quantities instead of recursing

---
 src/eprempy/metric/_defined.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index fb6b1f2..7bc18ea 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -119,9 +119,12 @@ class _Property(collections.abc.Mapping):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        name = term.base.replace('_', ' ')
+        if name != '1' and name not in _reference._QUANTITIES:
+            raise KeyError(f"Unknown quantity {name}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[name].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 3aca72a9632baf367e3f9187be626a05ab90ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 089/184] fix: raise the documented error for quantities that
 are not in a system

---
 src/eprempy/metric/_systems.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/metric/_systems.py b/src/eprempy/metric/_systems.py
index c64a25e..1b48a9c 100644
--- a/src/eprempy/metric/_systems.py
+++ b/src/eprempy/metric/_systems.py
@@ -222,11 +222,9 @@ class System(collections.abc.Mapping):
     def __getitem__(self, key: typing.Union[str, Quantity]):
         """Get the metric for the requested quantity in this system."""
         try:
-            found = quantity_factory(key)
-        except ValueError as err:
+            return quantity_factory(key)[self.name]
+        except (ValueError, _exceptions.QuantityError) as err:
             raise KeyError(f"No known quantity called '{key}'") from err
-        else:
-            return found[self.name]
 
     def get_dimension(self, this: typing.Union[str, _units.Unit]):
         """Compute the dimension of `unit` in this metric system."""
-- 
2.43.0


From b34c61f7b28c04bfff7376da1a8f01452a0ef533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 090/184] fix: define displacement per square centimeter in CGS

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 7fabcea..a3e96a8 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -432,7 +432,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
-- 
2.43.0


From f9d367a4b88398c2f8e73f3bd7c62d651ad3d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 091/184] fix: square the current in the dimension of
 permittivity

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index a3e96a8..860c9be 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -636,7 +636,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From 71e3c5785850742b339f5a3d17a0c6bf6bce6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 092/184] fix: create a dimension from any symbolic expression

---
 src/eprempy/metric/_dimensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_dimensions.py b/src/eprempy/metric/_dimensions.py
index 5aec5b5..d71eb42 100644
--- a/src/eprempy/metric/_dimensions.py
+++ b/src/eprempy/metric/_dimensions.py
@@ -17,7 +17,7 @@ class Dimension(symbolic.Expression):
     """An symbolic expression representing a physical dimension."""
 
     def __init__(self, arg: symbolic.Expressable) -> None:
-        super().__init__(arg)
+        super().__init__(symbolic.expression(arg).terms)
         self._quantities = {}
 
     def quantities(self, system: str) -> typing.Set[str]:
-- 
2.43.0


From 434f91757bbc0d8a693fa2492ac432eef00d1706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:19 +0000
Subject: [PATCH 093/184] fix: find the unit of a dimension regardless of how
 it is written

---
 src/eprempy/metric/_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_systems.py b/src/eprempy/metric/_systems.py
index 1b48a9c..84b97c0 100644
--- a/src/eprempy/metric/_systems.py
+++ b/src/eprempy/metric/_systems.py
@@ -332,8 +332,9 @@ class System(collections.abc.Mapping):
         target: typing.Union[str, _dimensions.Dimension],
     ) -> _units.Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        expression = symbolic.expression(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if expression == dimension:
                 return _units.unit_factory(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From 9a26962b5d6664117967db03e908b89854a49d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 094/184] fix: distribute the unit of numeric strings

---
 src/eprempy/quantity/_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 1e007fd..6197a33 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -224,16 +224,19 @@ def parse(x, /, distribute: bool=False):
         # First, check for a single numeric string.
         if isinstance(unwrapped, str):
             with contextlib.suppress(ValueError):
-                return parse([float(unwrapped)])
+                return parse([float(unwrapped)], distribute=distribute)
         # Next, check for all numeric strings.
         with contextlib.suppress(ValueError):
-            return parse([float(arg) for arg in unwrapped])
+            return parse(
+                [float(arg) for arg in unwrapped],
+                distribute=distribute,
+            )
         # Finally, check for numeric strings with a final unit.
         try:
             values = [float(arg) for arg in unwrapped[:-1]]
         except ValueError as err:
             raise ParsingValueError(errmsg) from err
-        return parse([*values, unwrapped[-1]])
+        return parse([*values, unwrapped[-1]], distribute=distribute)
 
     # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
     if all(isinstance(arg, numbers.Real) for arg in unwrapped):
-- 
2.43.0


From e57a1d91f7ac461c470d3146be105c4318eefa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 095/184] fix: do not drop values or accept non-numbers when
 measuring

---
 src/eprempy/quantity/_functions.py | 38 ++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 6197a33..205358f 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -70,7 +70,10 @@ def ismeasurable(x, /):
         return True
     if metric.unitlike(args[-1]):
         arg0 = args[0]
-        values = arg0 if container.isiterable(arg0) else args[:-1]
+        values = (
+            arg0 if len(args) == 2 and container.isseparable(arg0)
+            else args[:-1]
+        )
         if all(isinstance(value, numbers.Real) for value in values):
             return True
     if all(isinstance(i, (list, tuple)) and ismeasurable(i) for i in args):
@@ -234,7 +237,7 @@ def parse(x, /, distribute: bool=False):
         # Finally, check for numeric strings with a final unit.
         try:
             values = [float(arg) for arg in unwrapped[:-1]]
-        except ValueError as err:
+        except (ValueError, TypeError) as err:
             raise ParsingValueError(errmsg) from err
         return parse([*values, unwrapped[-1]], distribute=distribute)
 
@@ -247,25 +250,40 @@ def parse(x, /, distribute: bool=False):
     # - (v0, v1, ..., unit)
     # - ((v0, v1, ...), unit)
     last = unwrapped[-1]
-    unitless = all(
-        not isinstance(arg, (str, metric.Unit)) for arg in unwrapped
-    ) or last in ['1', metric.unit('1')]
-    unit = '1' if unitless else str(last)
-
     if isinstance(last, (str, metric.Unit)):
-        unit = str(unwrapped[-1])
+        unit = str(last)
 
         # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
         if all(isinstance(arg, numbers.Real) for arg in unwrapped[:-1]):
             return _wrap_measurable(unwrapped[:-1], unit, distribute)
 
         # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-        if isinstance(unwrapped[0], (list, tuple, range)):
-            return _wrap_measurable(unwrapped[0], unit, distribute)
+        if (
+            len(unwrapped) == 2
+            and isinstance(unwrapped[0], (list, tuple, range))
+        ): return _wrap_measurable(_numeric(unwrapped[0]), unit, distribute)
 
     raise ParsingTypeError(x)
 
 
+def _numeric(values):
+    """Convert numeric strings in `values` to numbers."""
+    result = []
+    for value in values:
+        if isinstance(value, numbers.Real):
+            result.append(value)
+        elif isinstance(value, (list, tuple, range)):
+            result.append(_numeric(value))
+        else:
+            try:
+                result.append(float(value))
+            except (ValueError, TypeError) as err:
+                raise ParsingTypeError(
+                    f"Cannot measure non-numeric value {value!r}"
+                ) from err
+    return result
+
+
 def _wrap_measurable(values, unit, distribute: bool):
     """Wrap a parsed measurable and return to caller."""
     if distribute:
-- 
2.43.0


From 6e6499839138225cc28370d70defa6a5b96464bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 096/184] fix: refuse to distribute different units

---
 src/eprempy/quantity/_functions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 205358f..3b3eb70 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -299,14 +299,13 @@ def _recursive_parse(unwrapped, distribute: bool):
             for arg in unwrapped
             for item in parse(arg, distribute=True)
         ]
+        _check_units([item[-1] for item in parsed])
         return tuple(parsed)
     parsed = [
         parse(arg, distribute=False) for arg in unwrapped
     ]
     units = [item[-1] for item in parsed]
-    if any(unit != units[0] for unit in units):
-        errmsg = "Cannot combine measurements with different units."
-        raise ParsingValueError(errmsg)
+    _check_units(units)
     values = [
         i for item in parsed for i in item[:-1]
     ]
@@ -314,6 +313,13 @@ def _recursive_parse(unwrapped, distribute: bool):
     return (*values, unit)
 
 
+def _check_units(units):
+    """Raise an exception if the given units differ."""
+    if any(unit != units[0] for unit in units):
+        errmsg = "Cannot combine measurements with different units."
+        raise ParsingValueError(errmsg)
+
+
 def hasdata(a):
     """True if the argument appears to contain numeric data."""
     return getdata(a) is not None # NOTE: data could be 0
-- 
2.43.0


From aa1d1cfc8b7c138d7fc9b8d4fe6fdcd71c162471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 097/184] fix: refuse to ignore arguments to measure

---
 src/eprempy/quantity/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/quantity/__init__.py b/src/eprempy/quantity/__init__.py
index 265b0ab..0abe2fa 100644
--- a/src/eprempy/quantity/__init__.py
+++ b/src/eprempy/quantity/__init__.py
@@ -121,6 +121,8 @@ def measure(x: base.MeasurableType, **kwargs) -> Measurement:
 def measure(*args, **kwargs):
     if not args:
         raise MeasuringTypeError("There is nothing to measure") from None
+    if len(args) > 1:
+        return _measure_implicit(args)
     this = args[0]
     if isinstance(this, Measurement):
         return this
-- 
2.43.0


From 87599c05852cf5675aaa7ba5ca372753a47e42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 098/184] fix: answer for mappings whether they are measurable

---
 src/eprempy/quantity/_functions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 3b3eb70..b96841a 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -64,7 +64,7 @@ def ismeasurable(x, /):
         return True
     if isinstance(args, numbers.Real):
         return True
-    if not container.isseparable(args):
+    if not container.isseparable(args) or isinstance(args, typing.Mapping):
         return False
     if all(isinstance(arg, numbers.Real) for arg in args):
         return True
@@ -209,6 +209,12 @@ def parse(x, /, distribute: bool=False):
             f"Cannot measure non-iterable input: {unwrapped!r}"
         ) from err
 
+    # Raise a type-based exception if input is not ordered.
+    if isinstance(unwrapped, (typing.Mapping, bytes)):
+        raise ParsingTypeError(
+            f"Cannot measure {type(unwrapped)} input: {unwrapped!r}"
+        ) from None
+
     # Recursively parse nested parsable objects.
     if all(isinstance(arg, (list, tuple)) for arg in unwrapped):
         return _recursive_parse(unwrapped, distribute)
@@ -334,8 +340,8 @@ def getdata(a):
     with contextlib.suppress(ParsingTypeError, ParsingValueError):
         parsed = parse(a, distribute=False)
         data = parsed[:-1]
-        if len(data) > 1:
-            return numpy.array(data)
-        return data[0]
+        if len(data) == 1:
+            return data[0]
+        return numpy.array(data)
 
 
-- 
2.43.0


From 8297d35749dc6340bc22636225daa47b5e04039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 099/184] fix: report multiple units after nested values

---
 src/eprempy/quantity/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index b96841a..bcc0574 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -235,7 +235,7 @@ def parse(x, /, distribute: bool=False):
             with contextlib.suppress(ValueError):
                 return parse([float(unwrapped)], distribute=distribute)
         # Next, check for all numeric strings.
-        with contextlib.suppress(ValueError):
+        with contextlib.suppress(ValueError, TypeError):
             return parse(
                 [float(arg) for arg in unwrapped],
                 distribute=distribute,
-- 
2.43.0


From 49ddd8f534a4f03b8bddaced8b9f3f60d711e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 100/184] fix: report ambiguous conversions to a metric system

---
 src/eprempy/measured/_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/measured/_context.py b/src/eprempy/measured/_context.py
index 8f773bc..0b37c65 100644
--- a/src/eprempy/measured/_context.py
+++ b/src/eprempy/measured/_context.py
@@ -52,7 +52,7 @@ class Context(typing.Generic[T]):
             try:
                 c = metric.conversion(self.unit, new)
             except metric.UnitConversionError as err:
-                if not (self.unit | new):
+                if str(new) not in metric.SYSTEMS and not (self.unit | new):
                     raise ValueError(
                         f"The unit {str(new)!r} is inconsistent"
                         f" with {str(self.unit)!r}"
-- 
2.43.0


From cf58614a886959f736474a364f97a886cbd64bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 101/184] fix: do not drop the unit of a measured value among
 numeric strings

---
 src/eprempy/quantity/_functions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index bcc0574..f5e6861 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -237,12 +237,12 @@ def parse(x, /, distribute: bool=False):
         # Next, check for all numeric strings.
         with contextlib.suppress(ValueError, TypeError):
             return parse(
-                [float(arg) for arg in unwrapped],
+                [_float(arg) for arg in unwrapped],
                 distribute=distribute,
             )
         # Finally, check for numeric strings with a final unit.
         try:
-            values = [float(arg) for arg in unwrapped[:-1]]
+            values = [_float(arg) for arg in unwrapped[:-1]]
         except (ValueError, TypeError) as err:
             raise ParsingValueError(errmsg) from err
         return parse([*values, unwrapped[-1]], distribute=distribute)
@@ -272,6 +272,13 @@ def parse(x, /, distribute: bool=False):
     raise ParsingTypeError(x)
 
 
+def _float(x) -> float:
+    """Convert a real number or a numeric string to `float`."""
+    if isinstance(x, (str, numbers.Real)):
+        return float(x)
+    raise TypeError(f"Cannot interpret {x!r} as a number")
+
+
 def _numeric(values):
     """Convert numeric strings in `values` to numbers."""
     result = []
@@ -282,7 +289,7 @@ def _numeric(values):
             result.append(_numeric(value))
         else:
             try:
-                result.append(float(value))
+                result.append(_float(value))
             except (ValueError, TypeError) as err:
                 raise ParsingTypeError(
                     f"Cannot measure non-numeric value {value!r}"
-- 
2.43.0


From 7bde43f2e44c4e2485a3a6db873d106f489c9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 102/184] fix: measure any iterable of numbers with a unit

---
 src/eprempy/quantity/_functions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index f5e6861..ff46896 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -71,8 +71,11 @@ def ismeasurable(x, /):
     if metric.unitlike(args[-1]):
         arg0 = args[0]
         values = (
-            arg0 if len(args) == 2 and container.isseparable(arg0)
-            else args[:-1]
+            arg0 if (
+                len(args) == 2
+                and container.isseparable(arg0)
+                and not isinstance(arg0, typing.Mapping)
+            ) else args[:-1]
         )
         if all(isinstance(value, numbers.Real) for value in values):
             return True
@@ -266,7 +269,8 @@ def parse(x, /, distribute: bool=False):
         # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
         if (
             len(unwrapped) == 2
-            and isinstance(unwrapped[0], (list, tuple, range))
+            and container.isseparable(unwrapped[0])
+            and not isinstance(unwrapped[0], typing.Mapping)
         ): return _wrap_measurable(_numeric(unwrapped[0]), unit, distribute)
 
     raise ParsingTypeError(x)
@@ -285,7 +289,7 @@ def _numeric(values):
     for value in values:
         if isinstance(value, numbers.Real):
             result.append(value)
-        elif isinstance(value, (list, tuple, range)):
+        elif isinstance(value, (list, tuple, range, numpy.ndarray)):
             result.append(_numeric(value))
         else:
             try:
-- 
2.43.0


From 7dbd205cd7e24c459b7058c44d22ba03aa0c0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 103/184] fix: keep the original positions of a subscripted
 axis

---
 src/eprempy/physical/_axis.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 5ca3962..4dc22ee 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -96,13 +96,28 @@ class Axis(numeric.Object[T]):
         Both cases are designed to preserve index information with regard to the
         original reference array.
         """
-        axis = self.spawn(self.data[__i])
+        axis = self.spawn(self._subscript(__i))
         if __i is ... or (isinstance(__i, slice) and __i == slice(None)):
+            axis._indices = self._indices
             return axis
-        idx = self.normalize(container.unwrap(__i))
-        axis._indices = numeric.index.sequence(idx)
+        # NOTE: The indices of an axis that came from subscripting another axis
+        # are positions in the original reference array.
+        reference = (
+            range(len(self)) if self._indices is None
+            else self._indices.data
+        )
+        if isinstance(__i, tuple):
+            __i = container.unwrap(__i)
+        if isinstance(__i, (tuple, numeric.index.Sequence)):
+            __i = list(__i)
+        idx = numpy.array(reference, dtype=int)[__i]
+        axis._indices = numeric.index.sequence(numpy.atleast_1d(idx))
         return axis
 
+    def _subscript(self, i):
+        """Extract data for `__getitem__`."""
+        return self.data[i]
+
     def __len__(self) -> int:
         """Called for len(self)."""
         return len(self.data)
@@ -205,10 +220,10 @@ class Symbols(Axis[typing.List[str]]):
     def __init__(self, data: typing.List[str]) -> None:
         super().__init__(data)
 
-    def __getitem__(self, index, /):
-        if container.isiterable(index):
-            return self.spawn([self.data[i] for i in index])
-        return super().__getitem__(index)
+    def _subscript(self, i):
+        if container.isiterable(i):
+            return [self.data[j] for j in i]
+        return super()._subscript(i)
 
     def index(self, *targets: T):
         if not targets:
-- 
2.43.0


From 0840da6431b2bb943ca97393f5fc0493cc275cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 104/184] fix: resolve slices of axis indices as sequences do

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 4dc22ee..d173301 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -62,7 +62,7 @@ class Axis(numeric.Object[T]):
         if len(targets) == 1:
             target = targets[0]
             if isinstance(target, slice):
-                return container.slice2range(target, stop=len(self))
+                return range(*target.indices(len(self)))
             if isinstance(target, (list, tuple, numpy.ndarray)):
                 return target
             if container.isiterable(target):
-- 
2.43.0


From 3a2b1f27fceb3923d49a87932668d3e8be05452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 105/184] fix: subscript symbolic axes as other axes

---
 src/eprempy/physical/_axis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index d173301..4cd9278 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -221,8 +221,13 @@ class Symbols(Axis[typing.List[str]]):
         super().__init__(data)
 
     def _subscript(self, i):
+        if isinstance(i, tuple):
+            i = container.unwrap(i)
+        if i is ...:
+            return self.data[:]
         if container.isiterable(i):
-            return [self.data[j] for j in i]
+            positions = numpy.arange(len(self.data))[list(i)]
+            return [self.data[j] for j in positions]
         return super()._subscript(i)
 
     def index(self, *targets: T):
-- 
2.43.0


From 0e75dd580021ea07f3840c82b092b3193c581c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 106/184] fix: look up the value of a singular axis in another
 axis

---
 src/eprempy/physical/_axis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 4cd9278..b6f949f 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -81,8 +81,11 @@ class Axis(numeric.Object[T]):
     def __contains__(self, __x):
         """Called for x in self."""
         if isinstance(__x, Axis) and len(__x) == 1:
-            with contextlib.suppress(Exception):
-                return self.index(__x) in self.indices
+            try:
+                self.index(__x)
+            except Exception:
+                return False
+            return True
         return __x in self.data
 
     def __getitem__(self, __i):
@@ -233,7 +236,7 @@ class Symbols(Axis[typing.List[str]]):
     def index(self, *targets: T):
         if not targets:
             return self.indices
-        if len(targets) == 1 and isinstance(targets[0], (list, tuple)):
+        if len(targets) == 1 and isinstance(targets[0], (list, tuple, Symbols)):
             targets = targets[0]
         if not all(isinstance(target, str) for target in targets):
             raise AxisTypeError(
-- 
2.43.0


From 64e59cfde4cdf59ccb2f59bed081ceb3b1c3dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 107/184] fix: apply the bound of the nearest value to values
 in any order

---
 src/eprempy/container.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 709d834..7fb1d7f 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1038,19 +1038,18 @@ def nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
+    distance = numpy.abs(array - target)
     if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
+        allowed = array >= target
     elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+        allowed = array <= target
+    else:
+        allowed = numpy.full(array.shape, True)
+    # NOTE: If no value satisfies the constraint, the result is the value nearest
+    # to the target (i.e., the corresponding end of the range of values).
+    if numpy.any(allowed):
+        distance = numpy.where(allowed, distance, numpy.inf)
+    index = distance.argmin()
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 20ba8c82e9f5acdcccc594bc4962494caf8fd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 108/184] fix: report axes with different dimensions when
 adding

---
 src/eprempy/physical/_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index b2bf699..bfd9b87 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -147,7 +147,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             return NotImplemented
         if self.keys() != other.keys():
             raise ValueError(
-                f"Cannot fill {a} from {b} with different dimensions"
+                f"Cannot fill {self} from {other} with different dimensions"
             ) from None
         new = {}
         for key in self:
-- 
2.43.0


From ce78c4c4af5a1e6b6cf46ce0bc1f6bf6f63d0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 109/184] fix: report an unknown location of a new axis

---
 src/eprempy/physical/_axes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index bfd9b87..97fe069 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -301,6 +301,15 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         if len(kwargs) == 0:
             return self | {dimension: new}
         locator, location = kwargs.popitem()
+        if locator not in {'before', 'after', 'index'}:
+            raise TypeError(
+                f"Unknown location keyword for new axes: {locator!r}"
+            ) from None
+        known = range(len(self)) if locator == 'index' else self.dimensions
+        if location not in known:
+            raise ValueError(
+                f"Cannot insert {dimension!r} at {locator} {location!r}"
+            ) from None
         mapping = {}
         for i, d in enumerate(self.dimensions):
             current = self[d]
-- 
2.43.0


From ceced2dbb533368e689fec30eec4b3ba3eacf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 110/184] fix: apply the tolerance of closeness to the first
 and last values

---
 src/eprempy/numeric/_data.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index 7015080..eddd84e 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -50,8 +50,6 @@ def isclose(a: Object, b: numbers.Real) -> bool:
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
         return True
-    if b < numpy.min(data) or b > numpy.max(data):
-        return False
     return numpy.any([numpy.isclose(b, data, atol=0.0)])
 
 
-- 
2.43.0


From d6e5209bc34a79af480e34b6fdb27e1ebf81ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 111/184] fix: create axes from a single axis length

---
 src/eprempy/physical/_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 97fe069..62e7621 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -503,7 +503,7 @@ def _map_axes(*args, **kwargs):
         # explicit dimension-axis pairs, and all the keyword arguments are
         # `None`, meaning we have nothing from which to create axes.
         raise ValueError("Empty axes") from None
-    if len(args) == 1:
+    if len(args) == 1 and not isinstance(args[0], numbers.Integral):
         # This ignores all other arguments on purpose.
         arg = args[0]
         if isinstance(arg, typing.Mapping):
-- 
2.43.0


From 0fd72b5c1399865dbcf9bee1fe58675bb594a041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:12 +0000
Subject: [PATCH 112/184] fix: support index sequences on axes created from
 plain values

---
 src/eprempy/physical/_axes.py | 12 ++++++------
 src/eprempy/physical/_axis.py |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 62e7621..3498b42 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -479,7 +479,7 @@ def _map_axes(*args, **kwargs):
             if dimensions is None:
                 # Create axes from default dimensions and the given shape.
                 return {
-                    f'x{i}': _axis.Points(range(n))
+                    f'x{i}': _axis.Points(numpy.arange(n))
                     for i, n in enumerate(shape)
                 }
             # Make sure number of dimensions == length of shape.
@@ -491,7 +491,7 @@ def _map_axes(*args, **kwargs):
                 ) from None
             # Create axes from the given shape and dimensions.
             return {
-                k: _axis.Points(range(n)) for k, n in zip(dimensions, shape)
+                k: _axis.Points(numpy.arange(n)) for k, n in zip(dimensions, shape)
             }
         if dimensions is not None:
             # We're here because we can't create axes from dimensions without
@@ -514,7 +514,7 @@ def _map_axes(*args, **kwargs):
         ) from None
     if not kwargs and etc.allisinstance(numbers.Integral, *args):
         # Create axes from one or more axis lengths.
-        return {f'x{i}': _axis.Points(range(n)) for i, n in enumerate(args)}
+        return {f'x{i}': _axis.Points(numpy.arange(n)) for i, n in enumerate(args)}
     raise TypeError(
         f"Cannot create axes from {etc.strargs(*args, **kwargs)}"
     ) from None
@@ -536,12 +536,12 @@ def _convert_to_axis(arg):
     if isinstance(arg, _axis.Axis):
         return arg
     if all(isinstance(x, str) for x in arg):
-        return _axis.Symbols(arg)
+        return _axis.Symbols([arg] if isinstance(arg, str) else list(arg))
     if all(isinstance(x, numbers.Integral) for x in arg):
-        return _axis.Points(arg)
+        return _axis.Points(numpy.array(list(arg), dtype=int))
     m = quantity.measure(arg)
     if m.unit == '1' and all(isinstance(x, numbers.Integral) for x in m):
-        return _axis.Points(m)
+        return _axis.Points(numpy.array(list(m), dtype=int))
     return _axis.Coordinates(m)
 
 
diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index b6f949f..80ca276 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -119,7 +119,9 @@ class Axis(numeric.Object[T]):
 
     def _subscript(self, i):
         """Extract data for `__getitem__`."""
-        return self.data[i]
+        if isinstance(i, tuple):
+            i = container.unwrap(i)
+        return self.data[list(i) if isinstance(i, tuple) else i]
 
     def __len__(self) -> int:
         """Called for len(self)."""
-- 
2.43.0


From f4d616c391ad2a8d24c930b241a766ddb5b62549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 113/184] fix: give equal alias groups equal hashes

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 3e62fc1..071212e 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From ae4b2be7a3a204bbfb1befb7de41c51d9b44bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 114/184] fix: merge every group that shares an alias

---
 src/eprempy/aliased.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 071212e..2989d2c 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -110,7 +110,11 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         keys
             Zero or more groups of associated objects.
         """
-        self._groups = [Group(key) for key in keys]
+        self._groups = []
+        for key in keys:
+            group = Group(key)
+            if group not in self._groups:
+                self._groups.append(group)
 
     @classmethod
     def _from_iterable(cls, it):
@@ -156,27 +160,22 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
-                    these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                new = Group(group)
+                for old in [g for g in these if not g.isdisjoint(new)]:
+                    these.remove(old)
+                    new = old | new
+                these.append(new)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.get(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        new = Group(__x)
+        for i in new:
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
                 ) from None
-        self._groups.append(Group(__x))
+        self._groups.append(new)
 
     def discard(self, __x: _KT) -> None:
         """Remove the group containing `__x`."""
-- 
2.43.0


From 6353108110c6bd2e45229a67602d23634e710815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 115/184] fix: find alias groups by keys that are not strings

---
 src/eprempy/aliased.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 2989d2c..7371a86 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -184,11 +184,8 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
 
     def __getitem__(self, __x: _KT):
         """Get the group containing `__x`."""
-        s = str(__x)
-        m = Group(__x)
-        alias = (k for k in self._groups if s in k or m == k)
         try:
-            found = next(alias)
+            found = next(self._search(__x))
         except StopIteration as err:
             raise KeyError(
                 f"No group containing {__x!r}"
@@ -207,10 +204,17 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         If it finds a match, it will immediately return that group (i.e.,
         without checking other keys). If not, it will return `default`.
         """
+        return next(self._search(__x), default)
+
+    def _search(self, __x: _KT):
+        """Iterate over the groups that contain or are equal to `__x`."""
         s = str(__x)
         m = Group(__x)
-        alias = (k for k in self._groups if s in k or m == k)
-        return next(alias, default)
+        h = isinstance(__x, collections.abc.Hashable)
+        return (
+            k for k in self._groups
+            if s in k or m == k or (h and __x in k)
+        )
 
     def without(self, *keys: typing.Union[_KT, Group[_KT]]):
         """Create a new keymap after removing `keys`."""
-- 
2.43.0


From 77e2cd81473d221a6e1edf578528eec26892e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 116/184] fix: join aliased keys that share an alias

---
 src/eprempy/aliased.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 7371a86..93941e9 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -306,12 +306,16 @@ def _build_from_aliases(
     mapping: typing.Mapping[_KT, _VT],
 ) -> typing.Dict[Group, _VT]:
     """Build a `dict` that maps aliased keys to user values."""
-    out = {}
+    out, known = {}, {}
     for key, value in mapping.items():
-        try:
-            aliased_key = next(k for k in out if key in k)
-        except StopIteration:
-            aliased_key = Group(key)
+        aliased_key = Group(key)
+        for k in dict.fromkeys(known[k] for k in aliased_key if k in known):
+            if aliased_key <= k:
+                aliased_key = k
+            else:
+                del out[k]
+                aliased_key = k | aliased_key
+        known.update(dict.fromkeys(aliased_key, aliased_key))
         out[aliased_key] = value
     return out
 
-- 
2.43.0


From fd315355dda8fb3786f7ec048062c1040c61f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 117/184] fix: keep keys and values when copying an aliased
 mapping

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 93941e9..b4564c7 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -828,7 +828,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def copy(self):
         """Create a shallow copy of this instance."""
-        return type(self)(self.as_dict)
+        return type(self)(self)
 
 
 class MutableMapping(Mapping, collections.abc.MutableMapping):
-- 
2.43.0


From 5c466a87b10886cfd02b11c783bd79dd898b8c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 118/184] fix: register all new aliases of a key or none

---
 src/eprempy/aliased.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index b4564c7..b69dc2c 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -779,9 +779,12 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
         include : bool, default=False
             If true, include the current key in the returned aliases.
         """
+        resolved = self._resolve(key)
+        if resolved is None:
+            raise KeyError(f"{key!r} is not a known name or alias.") from None
         if include:
-            return self._resolve(key)
-        return self._resolve(key) - [key]
+            return resolved
+        return resolved - [key]
 
     def __eq__(self, other: typing.Mapping) -> bool:
         """Define equality between this and another object."""
@@ -925,18 +928,21 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not aliases:
             return super().alias(key, include=include)
+        updated = super().alias(key, include=True)
         for alias in (a for a in aliases if a != key):
-            if alias in self._flat_keys():
-                current = super().alias(key)
+            if alias in self:
+                current = super().alias(alias)
                 this = ", ".join(str(a) for a in current)
                 if len(current) > 1:
                     this = f'({this})'
                 raise KeyError(
-                    f"'{key}' is already an alias for {this!r}"
+                    f"'{alias}' is already an alias for {this!r}"
                 ) from None
-            updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+            updated = updated | alias
+        value = self[key]
+        del self[key]
+        self.as_dict[updated] = value
+        self._refresh()
 
     def group(self, name: str, *keys: str):
         """View or create a groups of aliased items.
-- 
2.43.0


From 656ef6941193b0ad93d7b25af8cb00245ba6c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 119/184] fix: do not let a key group hide an item

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index b69dc2c..d767892 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -884,7 +884,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         self._groups = {}
 
     def __getitem__(self, key: typing.Union[str, Group]) -> _VT:
-        if key in self._groups:
+        if key in self._groups and key not in self:
             return tuple(
                 super(MutableMapping, self).__getitem__(k)
                 for k in self._groups[key]
-- 
2.43.0


From 6506f1d25a0955683351bba66f9d63090615e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 120/184] fix: join aliased keys when assigning a group of
 aliases

---
 src/eprempy/aliased.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index d767892..1ef3755 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -308,18 +308,30 @@ def _build_from_aliases(
     """Build a `dict` that maps aliased keys to user values."""
     out, known = {}, {}
     for key, value in mapping.items():
-        aliased_key = Group(key)
-        for k in dict.fromkeys(known[k] for k in aliased_key if k in known):
-            if aliased_key <= k:
-                aliased_key = k
-            else:
-                del out[k]
-                aliased_key = k | aliased_key
+        aliased_key = _join(Group(key), out, known)
         known.update(dict.fromkeys(aliased_key, aliased_key))
         out[aliased_key] = value
     return out
 
 
+def _join(
+    group: Group,
+    mapping: typing.Dict[Group, _VT],
+    known: typing.Dict[_KT, Group],
+) -> Group:
+    """Combine `group` with the keys of `mapping` that share its aliases.
+
+    This will remove keys from `mapping` if `group` contains new aliases.
+    """
+    for key in dict.fromkeys(known[k] for k in group if k in known):
+        if group <= key:
+            group = key
+        else:
+            del mapping[key]
+            group = key | group
+    return group
+
+
 def _build_from_key(
     mapping: typing.Mapping[str, typing.Mapping[str, typing.Any]],
     aliases: typing.Union[str, Groups[str]]=None,
@@ -893,7 +905,9 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
 
     def __setitem__(self, key: str, value: _VT):
         """Assign a value to `key` and its aliases."""
-        resolved = self._resolve(key) or Group(key)
+        resolved = self._resolve(key)
+        if resolved is None:
+            resolved = _join(Group(key), self.as_dict, self._flat_dict)
         self.as_dict[resolved] = value
         self._refresh()
 
-- 
2.43.0


From ab342b3cfe09f79fdddf2283e0c41265b14731b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 121/184] fix: create name maps from iterators

---
 src/eprempy/aliased.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 1ef3755..967cf65 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -1062,6 +1062,10 @@ class NameMap(collections.abc.Mapping):
         key: str='aliases',
     ) -> None:
         names = self._get_names(defs, refs)
+        if isinstance(names, typing.Iterator):
+            names = refs = tuple(names)
+        if isinstance(defs, typing.Iterator):
+            defs = tuple(defs)
         self._mapping = self._build_mapping(names, defs, key)
         self._init = {'refs': refs, 'defs': defs, 'key': key}
 
-- 
2.43.0


From 0fc88c47b257467e49f204fe17608559eb34387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 122/184] fix: squeeze an empty aliased mapping

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 967cf65..59b8e9f 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -704,7 +704,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
             interior mappings with different keys.
         """
         interior = tuple(self.as_dict.values())
-        if all(len(mapping) == 1 for mapping in interior):
+        if interior and all(len(mapping) == 1 for mapping in interior):
             if strict:
                 errmsg = (
                     "Can't squeeze interior mappings with different keys"
-- 
2.43.0


From 1a334f7f8a5d1fd5b52ea6436dae8e3e79fdff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:36 +0000
Subject: [PATCH 123/184] fix: keep keys and values when merging aliased
 mappings

---
 src/eprempy/aliased.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 59b8e9f..d33f03d 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -290,7 +290,7 @@ def _build_mapping(
     if aliases:
         return _build_from_key(mapping, aliases=aliases)
     # Does the mapping contain implicit aliases?
-    if any(
+    if not any(isinstance(key, Group) for key in mapping) and any(
         isinstance(group, typing.Mapping) and 'aliases' in group
         for group in mapping.values()
     ): return _build_from_key(mapping, aliases='aliases')
@@ -811,7 +811,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
         if isinstance(other, Mapping):
             others = other.items(aliased=True)
         elif isinstance(other, typing.Mapping):
-            others = other.items()
+            others = Mapping(other).items(aliased=True)
         else:
             return NotImplemented
         items = dict((*self.items(aliased=True), *others))
-- 
2.43.0


From 0efcd1570936d1ed0e47a7c761dbe082d614ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:36 +0000
Subject: [PATCH 124/184] fix: keep aliases when freezing a mapping with its
 groups

---
 src/eprempy/aliased.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index d33f03d..8ae3b07 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -1030,8 +1030,8 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not groups:
             return Mapping(self)
-        grouped = {k: self[k] for k in self._groups}
-        return Mapping({**self, **grouped})
+        grouped = {Group(k): self[k] for k in self._groups if k not in self}
+        return Mapping({**self.as_dict, **grouped})
 
 
 class NameMap(collections.abc.Mapping):
-- 
2.43.0


From bdd68c91fc08c8b1193b78f2a8df459623e61d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:27 +0000
Subject: [PATCH 125/184] fix: allow values without aliases next to values with
 aliases

---
 src/eprempy/aliased.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 8ae3b07..2ef6e05 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -274,6 +274,7 @@ def keysfrom(
         ]
     return [
         Group(k) | Group(v.get(aliases, ()))
+        if isinstance(v, typing.Mapping) else Group(k)
         for k, v in mapping.items()
     ]
 
@@ -382,6 +383,7 @@ def _build_from_key(
     keys = keysfrom(mapping, aliases=aliases)
     values = [
         {k: v for k, v in group.items() if k != aliases}
+        if isinstance(group, typing.Mapping) else group
         for group in mapping.values()
     ] if aliases and isinstance(aliases, str) else mapping.values()
     return dict(zip(keys, values))
-- 
2.43.0


From 8f0e24a77f19106f1fc47cbb7876eac538dcea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 126/184] fix: find nearest values among unsigned or undefined
 numbers

---
 src/eprempy/container.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 7fb1d7f..6adf555 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1038,18 +1038,26 @@ def nearest(
     """
 
     array = numpy.asarray(values)
-    distance = numpy.abs(array - target)
+    # NOTE: Subtracting integers as they are could exceed the limits of their type.
+    exact = array.astype(numpy.longdouble) if array.dtype.kind in 'biu' else array
+    with numpy.errstate(invalid='ignore', over='ignore'):
+        distance = numpy.abs(exact - target)
+    distance = numpy.where(array == target, 0, distance)
     if bound == 'lower':
         allowed = array >= target
     elif bound == 'upper':
         allowed = array <= target
     else:
-        allowed = numpy.full(array.shape, True)
+        allowed = array == array
     # NOTE: If no value satisfies the constraint, the result is the value nearest
-    # to the target (i.e., the corresponding end of the range of values).
-    if numpy.any(allowed):
-        distance = numpy.where(allowed, distance, numpy.inf)
-    index = distance.argmin()
+    # to the target (i.e., the corresponding end of the range of values). An
+    # undefined value is not near anything.
+    if not numpy.any(allowed):
+        allowed = array == array
+    if not numpy.any(allowed):
+        allowed = numpy.full(array.shape, True)
+    candidates = numpy.flatnonzero(allowed)
+    index = candidates[distance.flat[candidates].argmin()]
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 4b79136a14db05f64d9531a1516c17b9d8ca1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 127/184] fix: allow membership tests of table keys

---
 src/eprempy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 6adf555..9a38c35 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -432,7 +432,7 @@ class Graph(collections.abc.Collection):
         )
 
 
-class TableKeyError(Exception):
+class TableKeyError(KeyError):
     """No common key with this name."""
     def __str__(self) -> str:
         if len(self.args) > 0:
-- 
2.43.0


From b53c8954c2b118ba2b155766ee5d8550996cbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 128/184] fix: report every ambiguous table request as
 ambiguous

---
 src/eprempy/container.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 9a38c35..ec51e8d 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -652,22 +652,19 @@ class Table(collections.abc.Mapping):
             search.
         """
         subset = [*self._entries]
-        for n_checked, pair in enumerate(request.items(), start=1):
-            key, value = pair
+        for key, value in request.items():
             if key not in self.keys:
                 raise TableKeyError(key)
             subset = [
                 entry for entry in subset
                 if entry[key] == value
             ]
-            if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
-                if len(subset) == 1:
-                    return subset[0]
+            if not strict and len(subset) == 1:
+                return subset[0]
         if strict and len(subset) == 1:
             return subset[0]
+        if not strict and len(subset) > 1:
+            raise AmbiguousRequestError(request)
         raise TableLookupError(request)
 
 
-- 
2.43.0


From 3e5b9c45b4e29a990736f4fd02e00a52613b8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 129/184] fix: never overwrite a registered object without a
 name

---
 src/eprempy/container.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index ec51e8d..5d8c49b 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -818,7 +818,7 @@ class ObjectRegistry(collections.abc.Mapping, typing.Mapping[_KT, _VT]):
             for k, v in mapping.items()
         }
         self._object_key = object_key
-        self._init = self._items.copy()
+        self._init = {k: v.copy() for k, v in self._items.items()}
         self._default_key_count = 1
 
     def __iter__(self) -> typing.Iterator[str]:
@@ -957,13 +957,15 @@ class ObjectRegistry(collections.abc.Mapping, typing.Mapping[_KT, _VT]):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
+                new_default_key = proposed
+                while new_default_key in self._items:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
                 return new_default_key
 
     def reset(self) -> None:
         """Reset the internal mapping to its initial state."""
-        self._items = {**self._init}
+        self._items = {k: v.copy() for k, v in self._init.items()}
 
     def __getitem__(self, key: str) -> typing.Dict[str, typing.Any]:
         """Get an item from the object collection."""
-- 
2.43.0


From 29f67c25b87a6866128e3a75208783ba2d0c0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 130/184] fix: count texts in a nested collection

---
 src/eprempy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 5d8c49b..6eef55a 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1152,7 +1152,7 @@ def size(x, /) -> int:
         ) from None
     count = 0
     for y in x:
-        if isiterable(y):
+        if isseparable(y):
             count += size(y)
         else:
             count += 1
-- 
2.43.0


From 5ac987bf13c10a6718418eb0e3c7574d75df50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 131/184] fix: substitute values for subtypes of registered
 exceptions

---
 src/eprempy/exceptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/exceptions.py b/src/eprempy/exceptions.py
index d64d09c..d7ad92e 100644
--- a/src/eprempy/exceptions.py
+++ b/src/eprempy/exceptions.py
@@ -125,7 +125,10 @@ class Wrapper:
         try:
             return self._f(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
+            value = next(
+                self._substitutions[t] for t in type(err).__mro__
+                if t in self._substitutions
+            )
             if value != Ellipsis:
                 return value
             if not kwargs:
-- 
2.43.0


From 360bb38771fb52a719b15d1df47c79159362afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 132/184] fix: do not mistake the value of a sentinel for a
 name

---
 src/eprempy/etc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 7b46755..66684a5 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -402,8 +402,8 @@ class _SentinelType(typing.Generic[T]):
     @classmethod
     def _create(cls, name: str, value: T):
         """Pseudo-private instantiation method."""
-        if value in _sentinels:
-            return _sentinels[value]
+        if name in _sentinels and _sentinels[name]._value == value:
+            return _sentinels[name]
         instance = cls.__new__(cls)
         instance._name = name
         instance._value = value
-- 
2.43.0


From 180badef69f15e738413edd0bd413f97f3ac8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 133/184] fix: allow arrays as substitutes for exceptions

---
 src/eprempy/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/exceptions.py b/src/eprempy/exceptions.py
index d7ad92e..6c7eb51 100644
--- a/src/eprempy/exceptions.py
+++ b/src/eprempy/exceptions.py
@@ -129,7 +129,7 @@ class Wrapper:
                 self._substitutions[t] for t in type(err).__mro__
                 if t in self._substitutions
             )
-            if value != Ellipsis:
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From 8f4306393c390eb473f130ea38c663ad5ac3d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 134/184] fix: index shells by position whatever their numbers

---
 src/eprempy/observable/_interfaces.py | 2 +-
 src/eprempy/physical/_axis.py         | 6 ------
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index e2f5f37..3e9a1b8 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -621,7 +621,7 @@ class Implementations:
                 "Axes mismatch while computing acceleration rate"
             ) from None
         axes = {
-            k: physical.points(s) if k == 'shell' else v
+            k: self.axes['shell'][s] if k == 'shell' else v
             for k, v in kxx1_ux1.axes.items()
         }
         delta_x = physical.array(data, unit=unit, axes=axes)
diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 80ca276..ab3d49e 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -212,12 +212,6 @@ class Points(Axis[numpy.typing.NDArray[numpy.uint]]):
             return numeric.index.value(indices[0])
         return numeric.index.sequence(indices)
 
-    @property
-    def indices(self):
-        if self._indices is None:
-            self._indices = numeric.index.sequence(self.data)
-        return self._indices
-
 
 class Symbols(Axis[typing.List[str]]):
     """The interface to a symbolic axis."""
-- 
2.43.0


From b8e9ca16a9e68b3b2adb1c6551df6bcda0970cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 135/184] fix: compare groups of aliases by hash when
 collecting them

---
 src/eprempy/aliased.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 2ef6e05..7346305 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -110,11 +110,12 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         keys
             Zero or more groups of associated objects.
         """
-        self._groups = []
+        # NOTE: A dictionary keeps the order and the first of equal groups.
+        groups = {}
         for key in keys:
             group = Group(key)
-            if group not in self._groups:
-                self._groups.append(group)
+            groups.setdefault(frozenset(group), group)
+        self._groups = list(groups.values())
 
     @classmethod
     def _from_iterable(cls, it):
-- 
2.43.0


From b93a2742f72bbd52aa33f343e87b191ad77091be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:39 +0000
Subject: [PATCH 136/184] fix: compute floating-point values when raising an
 object to a fraction

---
 src/eprempy/physical/_operations.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index e16367e..68f5b69 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -1,4 +1,5 @@
 import contextlib
+import fractions
 import numbers
 import typing
 
@@ -363,6 +364,13 @@ def multiplicative(f, a, b):
     return multiplicative(f, x, y)
 
 
+def _real_exponent(x: numbers.Real):
+    """Convert a fraction into an equivalent built-in number."""
+    if isinstance(x, fractions.Fraction):
+        return int(x) if x.denominator == 1 else float(x)
+    return x
+
+
 @from_builtin
 def exponential(f, a, b, **kwargs):
     """Compute an exponential binary operation."""
@@ -399,10 +407,13 @@ def exponential(f, a, b, **kwargs):
         return numeric.Result(f(a.data, b.data, **kwargs), unit='1')
     if isinstance(a, Measured) and isinstance(b, numbers.Real):
         unit = f(a.unit, b)
+        # NOTE: NumPy computes an array of Python objects when the exponent is a
+        # Python rational number other than an integer.
+        p = _real_exponent(b)
         if isinstance(a, Array):
-            data = f(a.data.array, b, **kwargs)
+            data = f(a.data.array, p, **kwargs)
             return array_factory(data, unit=unit, axes=a.axes)
-        return numeric.Result(f(a.data, b, **kwargs), unit=unit)
+        return numeric.Result(f(a.data, p, **kwargs), unit=unit)
     if isinstance(a, (numbers.Real, numpy.ndarray)) and isinstance(b, Measured):
         if isinstance(b, Array):
             return f(a, b.data.array, **kwargs)
-- 
2.43.0


From e090450756dcf7aa3d90dbb11ac087b74f5011a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:21 +0000
Subject: [PATCH 137/184] fix: keep the values and the unit of the object that
 a physical object is created from

---
 src/eprempy/measured/_factories.py        | 13 +++++-
 src/eprempy/physical/_object_factories.py | 53 ++++++++++++++++-------
 2 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/src/eprempy/measured/_factories.py b/src/eprempy/measured/_factories.py
index ec1e840..9e387dc 100644
--- a/src/eprempy/measured/_factories.py
+++ b/src/eprempy/measured/_factories.py
@@ -51,15 +51,24 @@ def sequence_args(x, unit, /) -> typing.Tuple[typing.Any, metric.Unit]:
     """Parse arguments to initialize `~Sequence`."""
     if isinstance(x, Value):
         return sequence_args([x.data], x.unit)
-    if isinstance(x, Object):
+    if isinstance(x, Sequence):
         return x.data, x.unit
+    if isinstance(x, Object):
+        return numpy.ravel(numpy.array(x.data)), x.unit
     if isinstance(x, numbers.Real):
         return numpy.array([x]), unit
     a = numpy.asarray(x)
-    if a.ndim > 0:
+    if a.ndim > 0 and _isreal(a):
         return a.flatten(), unit
     raise TypeError(
         f"Cannot create a sequence from {x!r} and {unit!r}"
     ) from None
 
 
+
+
+def _isreal(a: numpy.ndarray) -> bool:
+    """True if `a` contains only real numbers."""
+    if a.dtype.kind == 'O':
+        return all(isinstance(i, numbers.Real) for i in a.flat)
+    return a.dtype.kind in 'biuf'
diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index b1d9708..961ec00 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -41,16 +41,39 @@ def scalar_args(x, unit, /):
         return x.data, x.unit
     if isinstance(x, numbers.Real):
         return x, unit
-    a = numpy.array(x)
+    a, u = real_args(x, unit)
     s = a.size
     if s != 1:
         raise TypeError(
             f"Cannot create a scalar from data with size {s}"
         ) from None
-    data = a[0]
-    if isinstance(x, Tensor):
-        return data, x.unit
-    return data, unit
+    return numpy.ravel(a)[0], u
+
+
+def real_args(x, unit, /) -> typing.Tuple[numpy.ndarray, typing.Any]:
+    """Extract real values from `x` and determine the appropriate unit.
+
+    Objects that have a unit determine the unit of the result.
+    """
+    if isinstance(x, Array):
+        return x.data.array, x.unit
+    if isinstance(x, Coordinates):
+        return real_args(x.data, unit)
+    a = numpy.asarray(x.data if isinstance(x, measured.Value) else x)
+    if not isreal(a):
+        raise TypeError(
+            f"Cannot create a physical object from {x!r}"
+        ) from None
+    if isinstance(x, (measured.Object, quantity.Measurement)):
+        return a, x.unit
+    return a, unit
+
+
+def isreal(a: numpy.ndarray, /) -> bool:
+    """True if `a` contains only real numbers."""
+    if a.dtype.kind == 'O':
+        return all(isinstance(i, numbers.Real) for i in a.flat)
+    return a.dtype.kind in 'biuf'
 
 
 @Vector.register.factory
@@ -65,17 +88,16 @@ def vector_args(x, unit, /):
     """Parse arguments to initialize `~Vector`."""
     if isinstance(x, (Vector, Coordinates)):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
-        y = [x.data] if isinstance(x, Scalar) else x
-        return vector_args(numpy.asarray(y), x.unit)
+    if isinstance(x, (Scalar, measured.Value)):
+        return numpy.asarray([x.data]), x.unit
     if isinstance(x, Tensor):
         return vector_args(numpy.array(x.data), x.unit)
-    a = numpy.asarray(x)
+    a, u = real_args(x, unit)
     if a.ndim != 1:
         raise TypeError(
             "Vector data must be one-dimensional"
         ) from None
-    return a, unit
+    return a, u
 
 
 @Tensor.register.factory
@@ -92,15 +114,14 @@ def tensor_args(x, unit, /):
         return x.data.array, x.unit
     if isinstance(x, Tensor):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
-        y = [x.data] if isinstance(x, Scalar) else x
-        return tensor_args(numpy.asarray(y), x.unit)
-    a = numpy.asarray(x)
+    if isinstance(x, (Scalar, measured.Value)):
+        return numpy.asarray([x.data]), x.unit
+    a, u = real_args(x, unit)
     if a.ndim == 0:
         raise TypeError(
             "Tensor data must have at least one dimension"
         ) from None
-    return a, unit
+    return a, u
 
 
 @Array.register.factory
@@ -115,6 +136,8 @@ def array_args(x, unit, axes, /):
     """Parse arguments to initialize `~Array`."""
     if isinstance(x, Array):
         return x.data, x.unit, x.axes
+    if isinstance(x, Coordinates):
+        return array_args(x.data, unit, axes)
     dimensions = tuple(axes or ())
     data = real.array(array_data(x), *dimensions)
     axes = array_axes(data.shape, axes)
-- 
2.43.0


From 970be69956846699f7c54b14728930b94faba4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 138/184] fix: refuse to create axis points from values that
 are not points

---
 src/eprempy/physical/_axis_factories.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis_factories.py b/src/eprempy/physical/_axis_factories.py
index 1ca0acf..9adba86 100644
--- a/src/eprempy/physical/_axis_factories.py
+++ b/src/eprempy/physical/_axis_factories.py
@@ -30,7 +30,27 @@ def points_args(x, /) -> numpy.typing.NDArray[numpy.uint]:
         raise TypeError(
             f"Cannot initialize {Points} from {x}"
         ) from err
-    data = numpy.array(tmp, ndmin=1, dtype=int)
+    if tmp.ndim > 1:
+        raise TypeError(
+            f"Cannot initialize {Points} from an object"
+            " with more than one dimension"
+        ) from None
+    if isinstance(x, measured.Object) and not x.isunitless:
+        raise TypeError(
+            f"Cannot initialize {Points} from an object with a unit"
+        ) from None
+    try:
+        with numpy.errstate(invalid='ignore'):
+            data = numpy.array(tmp, ndmin=1, dtype=int)
+    except (ValueError, TypeError, OverflowError) as err:
+        raise TypeError(
+            f"Cannot initialize {Points} from {x}"
+        ) from err
+    if tmp.dtype.kind != 'U' and not numpy.array_equal(data, numpy.ravel(tmp)):
+        raise TypeError(
+            f"Cannot initialize {Points} from an object"
+            " with values that are not integers"
+        ) from None
     if any(i < 0 for i in data):
         raise TypeError(
             f"Cannot initialize {Points} from an object"
-- 
2.43.0


From 54da160d898c4941ad42a1799f5fcaa341b90ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 139/184] fix: refuse to create a physical array from objects
 that are not numbers

---
 src/eprempy/physical/_object_factories.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index 961ec00..5757431 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -195,7 +195,12 @@ def array_data(x):
     if isinstance(x, numbers.Complex):
         return numpy.array([float(x)])
     if isinstance(x, typing.Sequence):
-        return numpy.array(x)
+        a = numpy.array(x)
+        if not isreal(a):
+            raise TypeError(
+                f"Cannot create a physical array from {x!r}"
+            ) from None
+        return a
     return x # <- NetCDF, HDF, etc.
 
 
-- 
2.43.0


From 815b9369404b82b27bb145ad5f8124e6a3a6d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 140/184] fix: keep the dimensions of the real-valued array
 that a physical array is created from

---
 src/eprempy/physical/_object_factories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index 5757431..6e6832e 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -138,6 +138,8 @@ def array_args(x, unit, axes, /):
         return x.data, x.unit, x.axes
     if isinstance(x, Coordinates):
         return array_args(x.data, unit, axes)
+    if isinstance(x, real.Array) and axes is None:
+        axes = tuple(x.dimensions)
     dimensions = tuple(axes or ())
     data = real.array(array_data(x), *dimensions)
     axes = array_axes(data.shape, axes)
-- 
2.43.0


From 94951173caccf960405bf9ce3693bd559953a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:31 +0000
Subject: [PATCH 141/184] fix: create a physical array from a measured object
 and axes

---
 src/eprempy/physical/_object_factories.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index 6e6832e..4c04e56 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -124,7 +124,7 @@ def tensor_args(x, unit, /):
     return a, u
 
 
-@Array.register.factory
+@Array.register.factory(mutable=['axes'])
 def array_factory(x, /, unit=None, axes=None) -> Array:
     """Internal factory for `~Array` instances."""
     d, u, b = array_args(x, unit, axes)
@@ -135,6 +135,11 @@ def array_factory(x, /, unit=None, axes=None) -> Array:
 def array_args(x, unit, axes, /):
     """Parse arguments to initialize `~Array`."""
     if isinstance(x, Array):
+        if axes is not None:
+            raise ValueError(
+                "Cannot change 'axes' when creating an instance of Array"
+                " from an existing instance of Array"
+            ) from None
         return x.data, x.unit, x.axes
     if isinstance(x, Coordinates):
         return array_args(x.data, unit, axes)
-- 
2.43.0


From f0dad075ee13566c90a285640ff5b78cac230bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 142/184] fix: refuse axes whose lengths differ from the shape
 of a physical array

---
 src/eprempy/physical/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/__init__.py b/src/eprempy/physical/__init__.py
index 413da1f..433393c 100644
--- a/src/eprempy/physical/__init__.py
+++ b/src/eprempy/physical/__init__.py
@@ -712,6 +712,14 @@ def array(x: Array[real.ValueType], /) -> Array[real.ValueType]:
     """Create a physical array from an existing physical array."""
 
 def array(*args, **kwargs):
-    return _object_factories.array_factory(*args, **kwargs)
+    new = _object_factories.array_factory(*args, **kwargs)
+    if kwargs.get('axes') is not None:
+        lengths = tuple(len(axis) for axis in new.axes.values())
+        if lengths != tuple(new.shape):
+            raise TypeError(
+                f"Cannot create an array with shape {tuple(new.shape)}"
+                f" and axes with lengths {lengths}"
+            ) from None
+    return new
 
 
-- 
2.43.0


From 13b207d96996e64cf96edc5ffaf5a4965483d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 143/184] fix: create a measured sequence from fractions and
 from coordinates

---
 src/eprempy/measured/_factories.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/measured/_factories.py b/src/eprempy/measured/_factories.py
index 9e387dc..f7ed8c4 100644
--- a/src/eprempy/measured/_factories.py
+++ b/src/eprempy/measured/_factories.py
@@ -54,12 +54,16 @@ def sequence_args(x, unit, /) -> typing.Tuple[typing.Any, metric.Unit]:
     if isinstance(x, Sequence):
         return x.data, x.unit
     if isinstance(x, Object):
-        return numpy.ravel(numpy.array(x.data)), x.unit
+        return sequence_args(numpy.array(x.data, ndmin=1), x.unit)
+    if isinstance(getattr(x, 'data', None), Sequence):
+        # NOTE: This handles objects that are not measured but that have
+        # measured values (e.g., coordinate axes).
+        return sequence_args(x.data, unit)
     if isinstance(x, numbers.Real):
-        return numpy.array([x]), unit
+        return sequence_args([x], unit)
     a = numpy.asarray(x)
     if a.ndim > 0 and _isreal(a):
-        return a.flatten(), unit
+        return a.flatten().astype(float if a.dtype.kind == 'O' else a.dtype), unit
     raise TypeError(
         f"Cannot create a sequence from {x!r} and {unit!r}"
     ) from None
-- 
2.43.0


From b42975f6966e89fb5c9d6c1a567d5983dc5eac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 144/184] fix: refuse to create axis points from coordinates
 that have a unit

---
 src/eprempy/physical/_axis_factories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/physical/_axis_factories.py b/src/eprempy/physical/_axis_factories.py
index 9adba86..e1fdafa 100644
--- a/src/eprempy/physical/_axis_factories.py
+++ b/src/eprempy/physical/_axis_factories.py
@@ -22,6 +22,8 @@ def points_args(x, /) -> numpy.typing.NDArray[numpy.uint]:
     """Parse arguments to initialize `~Points`."""
     if isinstance(x, Points):
         return x.data
+    if isinstance(x, Coordinates):
+        return points_args(x.data)
     try:
         # XXX: Creating this intermediate array circumvents bugs that arise when
         # `x.__array__` does not accept arguments.
-- 
2.43.0


From e3c2db0c798a0d1b42c0c0dd27344041c677cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 145/184] fix: refuse to create a physical array from values
 that are not real numbers

---
 src/eprempy/physical/_object_factories.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index 4c04e56..5313f80 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -64,6 +64,8 @@ def real_args(x, unit, /) -> typing.Tuple[numpy.ndarray, typing.Any]:
         raise TypeError(
             f"Cannot create a physical object from {x!r}"
         ) from None
+    if a.dtype.kind == 'O':
+        a = a.astype(float)
     if isinstance(x, (measured.Object, quantity.Measurement)):
         return a, x.unit
     return a, unit
@@ -89,7 +91,7 @@ def vector_args(x, unit, /):
     if isinstance(x, (Vector, Coordinates)):
         return x.data, x.unit
     if isinstance(x, (Scalar, measured.Value)):
-        return numpy.asarray([x.data]), x.unit
+        return real_args([x.data], x.unit)
     if isinstance(x, Tensor):
         return vector_args(numpy.array(x.data), x.unit)
     a, u = real_args(x, unit)
@@ -111,11 +113,11 @@ def tensor_factory(x, /, unit=None) -> Tensor:
 def tensor_args(x, unit, /):
     """Parse arguments to initialize `~Tensor`."""
     if isinstance(x, Array):
-        return x.data.array, x.unit
+        return numpy.atleast_1d(x.data.array), x.unit
     if isinstance(x, Tensor):
         return x.data, x.unit
     if isinstance(x, (Scalar, measured.Value)):
-        return numpy.asarray([x.data]), x.unit
+        return real_args([x.data], x.unit)
     a, u = real_args(x, unit)
     if a.ndim == 0:
         raise TypeError(
@@ -196,8 +198,12 @@ def array_data(x):
     if isinstance(x, (Tensor, Vector, measured.Sequence)):
         return x.data
     if isinstance(x, (Scalar, measured.Value)):
-        return numpy.array([x.data])
+        return array_data([x.data])
     if isinstance(x, numpy.ndarray):
+        if not isreal(x):
+            raise TypeError(
+                f"Cannot create a physical array from {x!r}"
+            ) from None
         return x
     if isinstance(x, numbers.Complex):
         return numpy.array([float(x)])
@@ -207,7 +213,11 @@ def array_data(x):
             raise TypeError(
                 f"Cannot create a physical array from {x!r}"
             ) from None
-        return a
+        return a.astype(float) if a.dtype.kind == 'O' else a
+    if not hasattr(x, 'shape'):
+        raise TypeError(
+            f"Cannot create a physical array from {x!r}"
+        ) from None
     return x # <- NetCDF, HDF, etc.
 
 
-- 
2.43.0


From 2ff094057ba6d8efbd6f0f0ca3190cd957dc6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 146/184] fix: correct the cgs value of the first radiation
 constant

3.7418e-16 W m^2 is 3.7418e-5 erg cm^2 / s.
---
 src/eprempy/universal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index f35c489..35723b4 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -106,7 +106,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From e3b48515aab9bc6890216f5d8445784f3e3568e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 147/184] fix: allow a physical constant to change its unit

The inherited method re-created the instance without its metadata and raised
TypeError.
---
 src/eprempy/universal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index 35723b4..afad78d 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -9,6 +9,7 @@ import numpy
 
 from . import aliased
 from . import measured
+from . import metric
 from . import physical
 from . import real
 
@@ -211,6 +212,11 @@ class Constant(measured.Value[real.ValueType]):
         self._quantity = quantity
         self._info = info
 
+    def withunit(self, new: metric.UnitLike, /):
+        """Convert this constant to a new unit."""
+        value = measured.value(self.data, unit=self.unit).withunit(new)
+        return type(self)(value, self.quantity, self.info)
+
     @property
     def asscalar(self):
         """Extract the value and unit as a scalar object."""
-- 
2.43.0


From 26bca6952d3e99d0a138befa30f5ad8ca06edde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 148/184] fix: round the charge of an elemental species

Truncation turned a charge of 1.9999999 into a charge of one.
---
 src/eprempy/atomic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/atomic.py b/src/eprempy/atomic.py
index 24e9a56..e3ede2b 100644
--- a/src/eprempy/atomic.py
+++ b/src/eprempy/atomic.py
@@ -153,7 +153,7 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [('+' if i > 0 else '-') * abs(round(float(i))) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From f9dc796d73c0f15d8c40ec8723eaee2e289569db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 149/184] fix: distinguish elements that round to the same mass
 number

The mass of cobalt (58.9332) produced nickel and that of calcium (40.08)
produced argon.
---
 src/eprempy/atomic.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/atomic.py b/src/eprempy/atomic.py
index e3ede2b..0d0b892 100644
--- a/src/eprempy/atomic.py
+++ b/src/eprempy/atomic.py
@@ -151,7 +151,10 @@ def elements(
             f" must equal length of charge ({len(_charge)})"
         )
         raise TypeError(message)
-    mass_idx = get_mass_indices(_nucleons, _mass)
+    mass_idx = [
+        _get_nearest(index, target)
+        for index, target in zip(get_mass_indices(_nucleons, _mass), _mass)
+    ]
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
     signs = [('+' if i > 0 else '-') * abs(round(float(i))) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
@@ -181,6 +184,18 @@ def get_mass_indices(
     return [get_index(values, round(target)) for target in targets]
 
 
+def _get_nearest(index: int, target: float) -> int:
+    """Get the index of the element nearest in mass to a fractional target.
+
+    This resolves elements that round to the same number of nucleons.
+    """
+    if target == round(target):
+        return index
+    masses = [element['mass'] for element in ELEMENTS]
+    matches = [i for i, m in enumerate(masses) if round(m) == round(target)]
+    return min(matches, key=lambda i: abs(masses[i] - target))
+
+
 
 @etc.autostr
 class Species:
-- 
2.43.0


From 9807cdacb7fb251a91a80ac85f87dd058f8ed452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:37 +0000
Subject: [PATCH 150/184] fix: give the reference energy of the mean free path
 the shape of its axes

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 3e9a1b8..7f6d5dd 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -551,7 +551,7 @@ class Implementations:
         if not isinstance(e, physical.Array):
             raise TypeError(f"Wrong type for energy: {type(e)}")
         e0 = physical.array(
-            [float(self.constants['MeV'])],
+            numpy.full(e.shape, float(self.constants['MeV'])),
             unit=e.unit,
             axes=e.axes
         )
-- 
2.43.0


From c370917333562a26fd936c088128d209f8721362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 151/184] fix: raise an index to a power given by a sequence

The check for negative exponents took the truth value of an array.
---
 src/eprempy/numeric/_index.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index ac81402..a42cbcc 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -227,12 +227,7 @@ def mod(a, b):
 @implements('pow')
 def pow(a, b, mod: int=None):
     """Compute a ** b."""
-    negative_exponent = False
-    try:
-        negative_exponent = b < 0
-    except ValueError:
-        negative_exponent = all(b < 0)
-    if negative_exponent:
+    if numpy.any(b < 0):
         raise ValueError(
             "Cannot raise index to a negative integral power"
         ) from None
-- 
2.43.0


From e3996215eaf784e25b22f73489c16f3e7e9a186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 152/184] fix: refuse to combine index sequences of different
 lengths

The result silently had the shorter length, and a sequence was equal to every
sequence that begins with the same indices.
---
 src/eprempy/numeric/_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index a42cbcc..cf9135b 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -315,6 +315,8 @@ def arithmetic(f, a, b, **kwargs):
 def binary(f, a, b, **kwargs):
     """Compute f(a, b, **kwargs) on numeric data."""
     if isinstance(a, Sequence) and isinstance(b, Sequence):
+        if len(a) != len(b):
+            raise OperandTypeError(a, b)
         return [f(x, y, **kwargs) for (x, y) in zip(a.data, b.data)]
     if isinstance(a, Sequence):
         if isinstance(b, Value):
-- 
2.43.0


From 260a0ba90f83a84acb49f70176b82363097724dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 153/184] fix: refuse to create a single index from many

The documentation promises a TypeError, but the factory took the first index.
---
 src/eprempy/numeric/_index.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index cf9135b..eefb81a 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -480,7 +480,11 @@ def value_args(x, /):
         return index
     indices = _sequence_args(x)
     if indices is not None:
-        return indices[0]
+        if len(indices) == 1:
+            return indices[0]
+        raise TypeError(
+            f"Cannot initialize {Value} from {len(indices)} indices"
+        ) from None
     raise TypeError(
         f"Cannot initialize {Value} from {x}, which has type {type(x)}"
     ) from None
-- 
2.43.0


From ec792f522ac392fc6578006b86b9e587543010e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 154/184] fix: create indices from arrays of any integral type

Only arrays of the default integer type were accepted.
---
 src/eprempy/numeric/_index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index eefb81a..ef6f4dd 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -503,9 +503,14 @@ def sequence_args(x, /):
     ) from None
 
 
+def _hasintegers(x: numpy.ndarray):
+    """True if `x` has an integral data type."""
+    return numpy.issubdtype(x.dtype, numpy.integer)
+
+
 def _value_args(x, /):
     """Helper for `index_args`."""
-    if isinstance(x, numpy.ndarray) and x.dtype == int:
+    if isinstance(x, numpy.ndarray) and _hasintegers(x):
         if x.size == 1:
             v = x[0] if x.ndim == 1 else x
             return int(v)
@@ -539,7 +544,7 @@ def _sequence_args(x, /):
                 return [int(i) for i in x]
         if all(isinstance(i, (numbers.Integral, numpy.integer)) for i in x):
             return x
-    if isinstance(x, numpy.ndarray) and x.dtype == int:
+    if isinstance(x, numpy.ndarray) and _hasintegers(x):
         if x.size == 1:
             v = x[0] if x.ndim == 1 else x
             return numpy.array(int(v), ndmin=1)
-- 
2.43.0


From 3332e288db0202def2a15ff4bb8f234a45a7d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 155/184] fix: refuse to create indices from fractional
 measured numbers

A measured 3.5 became the index 3, unlike the plain number.
---
 src/eprempy/numeric/_index.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index ef6f4dd..343c2a1 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -508,6 +508,14 @@ def _hasintegers(x: numpy.ndarray):
     return numpy.issubdtype(x.dtype, numpy.integer)
 
 
+def _check_integral(data):
+    """Raise an exception if `data` contains a fractional number."""
+    if any(float(i) != int(i) for i in numpy.ravel(data)):
+        raise TypeError(
+            f"Cannot initialize an index from fractional data {data}"
+        ) from None
+
+
 def _value_args(x, /):
     """Helper for `index_args`."""
     if isinstance(x, numpy.ndarray) and _hasintegers(x):
@@ -528,6 +536,7 @@ def _value_args(x, /):
         return index
     if isinstance(x, measurable.Type):
         if x.isunitless:
+            _check_integral(x.data)
             return x.data
         raise ValueError(
             f"Can only initialize {Value} from a unitless object"
@@ -561,6 +570,7 @@ def _sequence_args(x, /):
         return x.data
     if isinstance(x, measurable.Type):
         if x.isunitless:
+            _check_integral(x.data)
             return _sequence_args(x.data)
         raise ValueError(
             f"The argument to {Sequence} must be unitless."
-- 
2.43.0


From d7ea024ad3a07aab8ee777ac0578c117d31dae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 156/184] fix: create an index from an existing index

---
 src/eprempy/numeric/_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 343c2a1..e836ac6 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -528,6 +528,8 @@ def _value_args(x, /):
         ) from None
     if isinstance(x, (numbers.Integral, numpy.integer)):
         return x
+    if isinstance(x, Value):
+        return x.data
     if isinstance(x, (bytes, str)):
         try:
             index = int(x)
-- 
2.43.0


From 418102308336531cafe04ff235ee59a96a9d4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 157/184] fix: bound target values along the first axis of an
 array

---
 src/eprempy/numeric/_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e836ac6..1573fba 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -772,8 +772,8 @@ def _compute_bounds(
             ) from None
         return tuple(bounds)
     if bounds.ndim == 2:
-        lower = numpy.min(bounds[:, 0])
-        upper = numpy.max(bounds[:, 1])
+        lower = numpy.min(bounds.take(0, axis=axis))
+        upper = numpy.max(bounds.take(1, axis=axis))
         return lower, upper
     # NOTE: We can get `lower` and `upper` for N-D arrays by replacing `:` with
     # `...`. The problem is that they will be (N-1)-D arrays that we will then
-- 
2.43.0


From 255783e8568ed3e2b5f14d46eec14b947701465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 158/184] fix: bound target values that occur more than once in
 an array

The lower bound exceeded the upper bound, and the resulting range was empty.
---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 1573fba..d9e947c 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -813,6 +813,6 @@ def _find_1d_indices(
     lower = numpy.where(leq)[0].max() if any(leq) else 0
     geq = array >= target
     upper = numpy.where(geq)[0].min() if any(geq) else len(array)-1
-    return lower, upper
+    return min(lower, upper), max(lower, upper)
 
 
-- 
2.43.0


From f79154e2abe1ce56d6a8de2337ca2ebb0790be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 159/184] fix: compare array dimensions to a single name

Comparison split the name into its letters.
---
 src/eprempy/numeric/_array.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index da17afd..317b0db 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -42,8 +42,8 @@ class Dimensions(collections.abc.Sequence):
         """Called for self == other."""
         if isinstance(other, Dimensions):
             return self._names == other._names
-        if isinstance(other, str) and len(self) == 1:
-            return self._names[0] == other
+        if isinstance(other, str):
+            return self._names == (other,)
         try:
             truth = self._names == tuple(other)
         except TypeError:
@@ -68,9 +68,11 @@ class Dimensions(collections.abc.Sequence):
 
     def _compare(self, other, operator: typing.Callable[..., T]) -> T:
         """Implement a binary comparison between this instance and `other`."""
-        these = set(self._names)
-        those = set(other._names if isinstance(other, Dimensions) else other)
-        return operator(these, those)
+        try:
+            those = self._get_operand(other)
+        except DimensionTypeError:
+            return NotImplemented
+        return operator(set(self._names), set(those))
 
     def replace(self, old: str, new: str):
         """Replace a single dimension."""
-- 
2.43.0


From f5bf6bfea3ded29741f05537eb63943e17b62086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 160/184] fix: compute the symmetric difference of array
 dimensions

It subtracted dimensions from a list, which raised NotImplemented.
---
 src/eprempy/numeric/_array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 317b0db..3f9e03f 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -121,7 +121,7 @@ class Dimensions(collections.abc.Sequence):
         """Called for other - self."""
         if isinstance(other, Dimensions):
             return dimensions_factory(*[n for n in other if n not in self])
-        raise NotImplemented
+        return NotImplemented
 
     def __or__(self, other):
         """Called for self | other."""
@@ -154,7 +154,7 @@ class Dimensions(collections.abc.Sequence):
     def __xor__(self, other):
         """Called for self ^ other."""
         try:
-            those = self._get_operand(other)
+            those = dimensions_factory(*self._get_operand(other))
         except DimensionTypeError:
             return NotImplemented
         return (self - those) | (those - self)
@@ -162,7 +162,7 @@ class Dimensions(collections.abc.Sequence):
     def __rxor__(self, other):
         """Called for other ^ self."""
         try:
-            those = self._get_operand(other)
+            those = dimensions_factory(*self._get_operand(other))
         except DimensionTypeError:
             return NotImplemented
         return (those - self) | (self - those)
-- 
2.43.0


From 9075900baa2790522b8a67b75a44bed356805f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 161/184] fix: report a mismatch between overlapping or
 disjoint dimensions

---
 src/eprempy/numeric/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 3f9e03f..67da083 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -251,6 +251,8 @@ class Dimensions(collections.abc.Sequence):
             raise ValueError(
                 f"Original dimensions do not include {dims}"
             ) from None
+        if a != b:
+            raise ValueError("Dimensions do not match") from None
 
     def __hash__(self):
         """Support use as a mapping key."""
-- 
2.43.0


From faa35489cea71bf0823812f95ffcd88358d66016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 162/184] fix: create default array dimensions as dimensions,
 not as a plain tuple

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 67da083..657739d 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -291,7 +291,7 @@ def dimensions_factory(*args):
     if len(args) == 1:
         arg = args[0]
         if isinstance(arg, numbers.Real):
-            return tuple(f'x{i}' for i in range(arg))
+            return Dimensions(tuple(f'x{i}' for i in range(arg)))
     unwrapped = container.unwrap(args, newtype=tuple)
     unique = container.unique(unwrapped)
     return Dimensions(_compute_names(unique))
-- 
2.43.0


From 8f879c56e75e96634a3e0c3f56e3819bbd88c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 163/184] fix: permute a single array dimension

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 657739d..241c6d2 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -199,7 +199,7 @@ class Dimensions(collections.abc.Sequence):
         if args and 'order' in kwargs:
             raise TypeError("Too many arguments") from None
         if args:
-            if len(args) == 1:
+            if len(args) == 1 and numpy.iterable(args[0]):
                 return self._permute(args[0])
             return self._permute(args)
         if 'order' in kwargs:
-- 
2.43.0


From 9c8e827777c6db0d0046acd6de3939d7a2bd62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 164/184] fix: create a flat index sequence from measured
 floating-point numbers

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index d9e947c..ce743bf 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -573,7 +573,7 @@ def _sequence_args(x, /):
     if isinstance(x, measurable.Type):
         if x.isunitless:
             _check_integral(x.data)
-            return _sequence_args(x.data)
+            return _sequence_args(numpy.asarray(x.data, dtype=int))
         raise ValueError(
             f"The argument to {Sequence} must be unitless."
         ) from None
-- 
2.43.0


From 8dc12af41e252750693b6369cbba364ced3bd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 165/184] fix: expand an ellipsis that follows an index array

---
 src/eprempy/numeric/_index.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index ce743bf..7c917aa 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -683,13 +683,10 @@ def expand_ellipsis(ndim: int, *args: typing.SupportsIndex):
         raise IndexError(
             f"Too many indices ({nargs}) for {ndim} dimensions"
         ) from None
-    # Convert numpy arrays to lists to avoid ValueError in `count(...)`.
-    norm = [
-        list(arg) if isinstance(arg, numpy.ndarray) else arg
-        for arg in args
-    ]
+    # Locate ellipses by identity because comparing them to arrays is ambiguous.
+    found = [i for i, arg in enumerate(args) if arg is Ellipsis]
     # Count the number of ellipses.
-    count = norm.count(...)
+    count = len(found)
     # If there is no ellipsis, there's nothing to do.
     if count == 0:
         return args
@@ -703,7 +700,7 @@ def expand_ellipsis(ndim: int, *args: typing.SupportsIndex):
     # 2) a slice for every dimension represented by the ellipsis
     # 3) all arguments after the ellipsis
     nslice = ndim - nargs + 1
-    ellpos = args.index(Ellipsis)
+    ellpos = found[0]
     return (
         *args[slice(0, ellpos)],
         *([slice(None)] * nslice),
-- 
2.43.0


From 0547582681f502e1dff0eeb4b97d42ae75942896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 166/184] fix: refuse a permutation that repeats an array
 dimension

---
 src/eprempy/numeric/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 241c6d2..066c4c0 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -215,6 +215,8 @@ class Dimensions(collections.abc.Sequence):
                 "Cannot interpret all values as indices"
             ) from err
         self.mismatch(names)
+        if len(names) != len(self):
+            raise ValueError("Cannot repeat a dimension") from None
         return dimensions_factory(names)
 
     def mismatch(self, other: typing.Iterable[str]):
-- 
2.43.0


From f25e05e7de573696183de6f4ea0b99d0c4f800e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 167/184] fix: refuse a parent directory as a local path

---
 src/eprempy/paths.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 6d067bd..5a27f52 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -40,6 +40,10 @@ def localize(p: PathLike, normalized: bool=False):
         from `p` as-is.
     """
     path = normalize(p) if normalized else pathlib.Path(p)
+    if path.name == '..':
+        raise PathOperationError(
+            f"Cannot convert {str(p)!r} to a local path"
+        ) from None
     return pathlib.Path(path.name)
 
 
-- 
2.43.0


From fe2ed352793c3c085baf8b883863b8530e742b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 168/184] fix: expand the home directory when locating an
 executable

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 5a27f52..2cde659 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -63,7 +63,7 @@ def locate(
       the searching the system path.
     """
     location = environment.get(name) or path / name
-    it = normalize(os.path.realpath(location))
+    it = normalize(location)
     return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
-- 
2.43.0


From 1d8a687c4eaf69c633ca6c774e1b40d20d13cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 169/184] fix: look for templates in the current directory of
 the caller

---
 src/eprempy/paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 2cde659..abdbf68 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -250,10 +250,10 @@ def search(file: PathLike, *paths: PathLike) -> pathlib.Path:
 def find_file_by_template(
     templates: typing.List[typing.Callable],
     name: str,
-    directory: PathLike=pathlib.Path.cwd(),
+    directory: PathLike=None,
 ) -> pathlib.Path:
     """Find a valid path that conforms to a given template."""
-    d = fullpath(directory, strict=True)
+    d = fullpath(directory or pathlib.Path.cwd(), strict=True)
     for template in templates:
         test = d / str(template(name))
         if test.exists():
-- 
2.43.0


From 9dcebf1b8babedd5f92f208c611349bebb28991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 170/184] fix: distinguish path-based objects by all of their
 arguments

---
 src/eprempy/paths.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index abdbf68..95292b1 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -82,11 +82,12 @@ class PathSet(etc.InstanceSet):
 
     def _generate_key(self, *args, **kwargs):
         path = kwargs.get('path')
+        rest = args
         if path is None and len(args) >= 1:
-            path = args[0]
+            path, *rest = args
         if isinstance(path, (str, pathlib.Path)):
             others = {k: v for k, v in kwargs.items() if k != 'path'}
-            return self, str(path), args[1:], tuple(sorted(others.items()))
+            return self, str(path), tuple(rest), tuple(sorted(others.items()))
         return super()._generate_key(*args, **kwargs)
 
 
-- 
2.43.0


From 4a118324bb3b1854f7b9bb3045053cfcb87ce3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:06 +0000
Subject: [PATCH 171/184] fix: confine operations on runs to the run
 directories

---
 src/eprempy/project.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 07b9ebd..ec3ea51 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -507,13 +507,24 @@ class RunPaths(collections.abc.Collection):
         ----------
         *names : string
             Zero or more names of runtime directories to create.
+
+        Raises
+        ------
+        PathOperationError
+            A name would lead out of, or deeper into, a runtime directory.
         """
         rundirs = self._get_rundirs(branches)
         if pattern:
             return [
                 path for rundir in rundirs
                 for path in rundir.glob(pattern)
+                if path.parent == rundir and path.name != '..'
             ]
+        for name in names:
+            if name in {'', '.', '..'} or pathlib.Path(name).name != str(name):
+                raise paths.PathOperationError(
+                    f"Invalid name for a run: {str(name)!r}"
+                ) from None
         if len(names) == 1:
             name = names[0]
             return [rundir / name for rundir in rundirs]
-- 
2.43.0


From aec0d82abf2d36b4564602a55b5f76321c19d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:39 +0000
Subject: [PATCH 172/184] fix: refuse to index an expression before its first
 term

---
 src/eprempy/symbolic/_expression.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index fc5088d..d187130 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -45,12 +45,7 @@ class Expression(collections.abc.Sequence):
     def __getitem__(self, index):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
-            idx = int(index)
-            if idx > len(self):
-                raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
-            return self.terms[idx]
+            return self.terms[int(index)]
         if isinstance(index, slice):
             return self.terms[index]
         raise IndexError(
-- 
2.43.0


From ced7039332eee2a67604caf788cc36586128ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:39 +0000
Subject: [PATCH 173/184] fix: keep the coefficient when updating the bases of
 an expression

---
 src/eprempy/symbolic/_expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index d187130..ff692a4 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -237,6 +237,9 @@ class Expression(collections.abc.Sequence):
         result = bases[0] ** exponents[0]
         for base, exponent in zip(bases[1:], exponents[1:]):
             result *= base ** exponent
+        for term in self:
+            if term.coefficient != 1:
+                result *= term.coefficient
         return result
 
 
-- 
2.43.0


From 131529e9b2f51444b52f1e9632dea4967b973678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:53 +0000
Subject: [PATCH 174/184] fix: divide the integers of EPREM source exactly

---
 src/eprempy/parameter/_src.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 270c78a..1439cfd 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -61,7 +61,10 @@ def calculate(
             args = evaluate(node.left), evaluate(node.right)
             if isinstance(node.op, ast.Div):
                 if all(isinstance(arg, int) for arg in args):
-                    return int(args[0] / args[1])
+                    # C truncates toward zero
+                    n, d = args
+                    q = abs(n) // abs(d)
+                    return q if (n < 0) == (d < 0) else -q
             return _OPERATORS[type(node.op)](*args)
         if isinstance(node, ast.Call) and len(node.args) == 1:
             if getattr(node.func, 'id', None) == 'sqrt':
-- 
2.43.0


From 4a423a705616d6f774d285393609a5e32a20b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:25 +0000
Subject: [PATCH 175/184] fix: keep the positions of an axis when changing its
 unit

---
 src/eprempy/physical/_axis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index ab3d49e..2ab51e6 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -365,8 +365,11 @@ class Coordinates(Axis[measured.Sequence[numbers.Real]]):
 
     def withunit(self: Self, new: metric.UnitLike, /) -> Self:
         """Convert this cooridinate to a new unit."""
-        s = self.data.withunit(new)
-        return self.spawn(s)
+        axis = self.spawn(self.data.withunit(new))
+        # Changing the unit does not change the positions of the values in the
+        # original reference array.
+        axis._indices = self._indices
+        return axis
 
     @property
     def unit(self):
-- 
2.43.0


From d9b60182a8096c521cb865f282fbbf8d587ee0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:10 +0000
Subject: [PATCH 176/184] fix: give an empty array the empty axis when
 combining it with a singular one

---
 src/eprempy/physical/_axes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 3498b42..705f86d 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -186,11 +186,11 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
     def _select(self, key: str, other: typing.Mapping):
         """Choose between this axis and that of `other`.
 
-        A singular axis does not replace a full axis.
+        A singular axis does not replace a full or empty axis.
         """
         if key not in other:
             return self[key]
-        if key in self and len(other[key]) == 1 < len(self[key]):
+        if key in self and len(other[key]) == 1 != len(self[key]):
             return self[key]
         return other[key]
 
-- 
2.43.0


From 712497d0b957a782916cc4ff53fa955825102b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:10 +0000
Subject: [PATCH 177/184] fix: do not list stray files as runs of a project

---
 src/eprempy/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index ec3ea51..e1d9ec5 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -548,11 +548,13 @@ class RunPaths(collections.abc.Collection):
             return {
                 run.name: set()
                 for run in (self.root / self.base).glob('*')
+                if run.is_dir()
             }
         base = {
             run.name: set()
             for branch in self._branches
             for run in (self.root / branch / self.base).glob('*')
+            if run.is_dir()
         }
         for run, branches in base.items():
             branches.update(
-- 
2.43.0


From 176539ac4bb7e791277868ef4484ba24948461e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:25 +0000
Subject: [PATCH 178/184] fix: label a plot with the unit of its values

---
 src/eprempy/physical/_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 1bd817a..233ef8e 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -186,10 +186,11 @@ def plot(
     **extra
 ) -> None:
     """Plot the named array."""
-    ndarray = numpy.array(array.withunit(unit or array.unit)).squeeze()
+    converted = array.withunit(unit or array.unit)
+    ndarray = numpy.array(converted).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
-    extra['ylabel'] = f"[{array.unit.format(style='tex')}]"
+    extra.setdefault('ylabel', f"[{converted.unit.format(style='tex')}]")
     if x is None:
         dimension = next(i for i, n in array.shapemap.items() if n != 1)
         axis = array.axes[dimension]
-- 
2.43.0


From caf83e55b01ce5ed199b61a42e0a39c38ec84d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:25 +0000
Subject: [PATCH 179/184] fix: plot an array against coordinates

---
 src/eprempy/physical/_array.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 233ef8e..9b338d8 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -202,7 +202,7 @@ def plot(
                 extra['xlabel'] = f"{name} [{m.unit}]"
         else:
             xarr = numpy.array(axis)
-            extra['xlabel'] = name
+            extra.setdefault('xlabel', name)
         _create_plot(xarr, ndarray, *args, **extra)
     else:
         if isinstance(x, measured.Type):
@@ -211,11 +211,16 @@ def plot(
             m = quantity.measure(x)
             xarr = numpy.array(m)
             if 'xlabel' not in extra:
-                extra['xlabel'] = f"{name} [{m.unit}]"
+                extra['xlabel'] = f"[{m.unit}]"
         elif isinstance(x, str):
             axis = array.axes[x]
-            xarr = numpy.array(axis)
-            extra['xlabel'] = x
+            if isinstance(axis, Coordinates):
+                m = quantity.measure(axis)
+                xarr = numpy.array(m)
+                extra.setdefault('xlabel', f"{x} [{m.unit}]")
+            else:
+                xarr = numpy.array(axis)
+                extra.setdefault('xlabel', x)
         else:
             raise TypeError(x)
         _create_plot(xarr, ndarray, *args, **extra)
-- 
2.43.0


From 37e1a6122983ea5a948ebdb1bcf6bece4641a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:25 +0000
Subject: [PATCH 180/184] fix: plot an array against a sequence of numbers

---
 src/eprempy/physical/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 9b338d8..6744230 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -221,6 +221,8 @@ def plot(
             else:
                 xarr = numpy.array(axis)
                 extra.setdefault('xlabel', x)
+        elif isinstance(x, (typing.Sequence, numpy.ndarray)):
+            xarr = numpy.asarray(x).squeeze()
         else:
             raise TypeError(x)
         _create_plot(xarr, ndarray, *args, **extra)
-- 
2.43.0


From bececc0f5acd63a45eae08145d91d8a0746d27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:32 +0000
Subject: [PATCH 181/184] fix: escape the number sign when formatting a term as
 TeX

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 4af0fb8..9ee4ef2 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -737,7 +737,7 @@ class Term(Operand):
         exponent = self._format_exponent(fmt)
         if 'tex' in fmt.lower():
             if self.base == '#':
-                return rf"${coefficient}{self.base}{exponent}$"
+                return rf"${coefficient}\{self.base}{exponent}$"
             return rf"${coefficient}\mathrm{{{self.base}}}{exponent}$"
         return f"{coefficient}{self.base}{exponent}"
 
-- 
2.43.0


From db9d9eef34d5b976a2944613f274562385b9d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:43 +0000
Subject: [PATCH 182/184] fix: append source parameters to the existing
 reference data

---
 scripts/default-parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/default-parameters.py b/scripts/default-parameters.py
index 1b7cfb5..e4990bc 100644
--- a/scripts/default-parameters.py
+++ b/scripts/default-parameters.py
@@ -25,6 +25,10 @@ def main(
     _generate_json(basetypes_h, configuration_c, _DB_PATH, append=append)
     if verbose:
         print(f"{action} new database to {_DB_PATH}")
+    if append:
+        # Include the existing parameters.
+        basetypes_h = parameter.BaseTypesH()
+        configuration_c = parameter.ConfigurationC()
     _generate_py(basetypes_h, configuration_c, _PY_PATH)
     if verbose:
         print(f"{action} new variables to {_PY_PATH}")
@@ -50,8 +54,6 @@ def _generate_json(
             loaded = dict(json.load(rp))
         for k, v in obj.items():
             v.update(loaded.get(k, {}))
-        if loaded['sources']:
-            sources |= set(loaded['sources'])
     with path.open('w') as wp:
         json.dump(obj, wp, indent=4, sort_keys=True)
     srclog = path.parent / 'sources.log'
-- 
2.43.0


From 436c6634b1c9bbb2053fdf657183576fa18b5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:08 +0000
Subject: [PATCH 183/184] fix: derive parameter defaults from configured values

configuration.c defines some default values in terms of other parameters
(e.g., simStopTime = simStartTime + tDel). The interface computed them from
the defaults of those parameters even if the configuration file set them.
---
 src/eprempy/parameter/_config.py  | 11 +++++++++++
 src/eprempy/parameter/_runtime.py |  5 +++--
 src/eprempy/parameter/_src.py     |  3 +++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index fda3058..2781689 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -3,6 +3,7 @@ Support for working with EPREM runtime configuration files.
 """
 
 import collections.abc
+import copy
 import numbers
 import pathlib
 import re
@@ -38,6 +39,16 @@ class Defaults(collections.abc.Mapping):
             return self._evaluate(name)
         raise KeyError(f"Unknown parameter {name!r}")
 
+    def given(self, values: typing.Mapping[str, typing.Any]):
+        """The default values implied by known values of other parameters."""
+        new = copy.copy(self)
+        known = {
+            key: value for key, value in values.items()
+            if isinstance(value, numbers.Real)
+        }
+        new._mapping = {**self._mapping, **known}
+        return new
+
     _special_cases = {
         'N_PROCS': None,
         'third': 1/3,
diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index d3e1e7d..b9d42a1 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -208,7 +208,7 @@ def interface_factory(*args, **kwargs):
         key: info.get('default')
         for key, info in _metadata._LOCAL.items()
     }
-    init = {**local, **defaults}
+    user = {}
     cfgpath = None
     if cfginit:
         cfgfile = _config.configfile_factory(cfginit, **options)
@@ -221,7 +221,8 @@ def interface_factory(*args, **kwargs):
             for key, parameter in defaults.reference.items()
             if key in cfgfile
         }
-        init.update(user)
+    # NOTE: Some default values depend on the values of other parameters.
+    init = {**local, **defaults.given(user), **user}
     base = {
         key: {'unit': _metadata.UNITS.get(key), 'value': value}
         for key, value in init.items()
diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 1439cfd..b4c4219 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -65,6 +65,9 @@ def calculate(
                     n, d = args
                     q = abs(n) // abs(d)
                     return q if (n < 0) == (d < 0) else -q
+                if args[1] == 0:
+                    # C follows IEEE 754
+                    return args[0] * math.copysign(math.inf, args[1])
             return _OPERATORS[type(node.op)](*args)
         if isinstance(node, ast.Call) and len(node.args) == 1:
             if getattr(node.func, 'id', None) == 'sqrt':
-- 
2.43.0


From 39d7f4252455b654f8f00e261a8aa74588fc1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:09 +0000
Subject: [PATCH 184/184] fix: quote paths in the command of a run

A run failed, or executed something else, when the project, its
configuration file, or an executable had a path with spaces or other
characters that are special to the shell.
---
 src/eprempy/project.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e1d9ec5..263b0ec 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -9,6 +9,7 @@ import datetime
 import json
 import os
 import pathlib
+import shlex
 import shutil
 import subprocess
 import sys
@@ -1001,8 +1002,10 @@ class Interface:
         eprem = paths.locate('eprem', branch, environment or {})
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
-            f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} {self._attrs.config}"
+            f"{shlex.quote(str(mpirun))} "
+            "--mca btl_base_warn_component_unused 0 "
+            f"-n {nproc or 1} {shlex.quote(str(eprem))} "
+            f"{shlex.quote(str(self._attrs.config))}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0

