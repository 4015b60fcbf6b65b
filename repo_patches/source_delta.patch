From 123a416be7c8db3c7236529cd348a8059007b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 01/91] fix: hfarray.std and hfarray.var honour ddof

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..ad82ffe 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -820,7 +820,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
@@ -840,7 +841,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
-- 
2.43.0


From 7335a065ac32a2c4ad33ad731a5c440f84f7ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 02/91] fix: hfarray.view honours the dtype argument

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index ad82ffe..bd77eb3 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -494,11 +494,13 @@ class _hfarray(ndarray):
         u"""Return view of *data* i.e. new *hfarray* object but pointing to
            same data.
         """
+        if dtype is None:
+            dtype = self.dtype
         if type is None:
-            return self.__class__(ndarray.view(self, dtype=self.dtype),
+            return self.__class__(ndarray.view(self, dtype=dtype),
                                   dims=self.dims, copy=False)
         else:
-            return ndarray.view(self, dtype=self.dtype, type=type)
+            return ndarray.view(self, dtype=dtype, type=type)
 
     def reorder_dimensions(self, *order):
         u"""Omorganiserar ordningen pa Axis i *dims*. Genom att flytta Axis
-- 
2.43.0


From ee76266f6c27db204ba18af2a48fb8d0b33adef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 03/91] fix: DataDict.pop, popitem and clear keep the key order
 in step

---
 hftools/dataset/dataset.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..0a46338 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -137,6 +137,22 @@ class DataDict(dict):
             self.order.append(key)
         return a
 
+    def pop(self, key, *default):
+        value = dict.pop(self, key, *default)
+        if key in self.order:
+            self.order.remove(key)
+        return value
+
+    def popitem(self):
+        key, value = dict.popitem(self)
+        if key in self.order:
+            self.order.remove(key)
+        return key, value
+
+    def clear(self):
+        dict.clear(self)
+        del self.order[:]
+
     def rename(self, oldname, newname):
         vdata = self[oldname]
         if newname not in self.order:
-- 
2.43.0


From eb74d97a7c821a80e1e59b17e2e839d035078fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 04/91] fix: renaming a DataDict key to itself keeps its
 position

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 0a46338..411cb59 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -155,6 +155,8 @@ class DataDict(dict):
 
     def rename(self, oldname, newname):
         vdata = self[oldname]
+        if oldname == newname:
+            return
         if newname not in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
-- 
2.43.0


From 242c843be17d6c50900eb6a76ab88a79fb6ddbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 05/91] fix: unit_matrix and unit_smatrix honour cls

---
 hftools/networks/multiports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8e17d68..a457f6d 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -534,7 +534,7 @@ def unit_matrix(size=2, cls=SArray):
     i = DimMatrix_i("i", range(size))
     j = DimMatrix_j("j", range(size))
     m = hfarray(np.identity(size, dtype=np.complex128), dims=(i, j))
-    return SArray(m)
+    return cls(m)
 
 
 def unit_smatrix(size=2, cls=SArray):
@@ -542,7 +542,7 @@ def unit_smatrix(size=2, cls=SArray):
     j = DimMatrix_j("j", range(size))
     m = hfarray(np.zeros((size, size), dtype=np.complex128), dims=(i, j))
     m[0, 1] = m[1, 0] = 1
-    return SArray(m)
+    return cls(SArray(m))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 0a61b81a52b0dfd8911c5ea67c99c9c91c806cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 06/91] fix: convert multiports of any size, not only twoports

---
 hftools/networks/multiports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index a457f6d..e997f68 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -67,10 +67,11 @@ def convert(fromP, toP, a):
     PB = inv(toP)
     PA = fromP
     P = matrix_multiply(PA, PB)
-    tau1 = P[..., :2, :2]
-    sigma1 = P[..., :2, 2:]
-    tau2 = P[..., 2:, :2]
-    sigma2 = P[..., 2:, 2:]
+    n = a.shape[-1]
+    tau1 = P[..., :n, :n]
+    sigma1 = P[..., :n, n:]
+    tau2 = P[..., n:, :n]
+    sigma2 = P[..., n:, n:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
     res = matrix_multiply(A, B)
-- 
2.43.0


From a6ff4bcdfa01166a835979c074e5f8d59de191b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 07/91] fix: views of Z, Y, G, H, ABCD, T and Tp arrays do not
 raise TypeError

---
 hftools/networks/multiports.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index e997f68..84f52ad 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -154,11 +154,15 @@ class _MultiPortArray(_hfarray):
         self.Z0 = getattr(obj, "Z0", 50.)
 
     def view(self, dtype=None, type=None):
+        if dtype is None:
+            dtype = self.dtype
         if type is None:
-            x = np.ndarray.view(self, dtype=self.dtype)
-            return self.__class__(x, dims=self.dims, copy=False, Z0=self.Z0)
+            x = np.ndarray.view(self, dtype=dtype, type=hfarray)
+            out = self.__class__(x, dims=self.dims, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
-            return np.ndarray.view(self, dtype=self.dtype, type=type)
+            return np.ndarray.view(self, dtype=dtype, type=type)
 
     def ismatrix(self):
         return (self.ndim >= 2 and
-- 
2.43.0


From eec7ab08a36e748fce2451f68d0e71e7290f2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 08/91] fix: multiport arrays keep their Z0 when created from
 plain data and when indexed

---
 hftools/networks/multiports.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 84f52ad..adc3125 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -115,6 +115,8 @@ class _MultiPortArray(_hfarray):
                        "elements of a %s matrix")
                 msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                 raise ValueError(msg)
+        elif Z0 is not None:
+            self.Z0 = Z0
 
     @property
     def Z0(self):
@@ -215,7 +217,9 @@ class _MultiPortArray(_hfarray):
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
         if ismatrix(data):
-            return self.__class__(data, copy=False)
+            out = self.__class__(data, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return data
 
-- 
2.43.0


From c5c22c706d441b3fd10e9d280b949b72a56b776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 09/91] fix: cascadeS cascades all its arguments

---
 hftools/networks/spar_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index b146b5c..c9fa308 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -30,6 +30,8 @@ def cascadeS(S1, S2, *rest):
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    if rest:
+        return cascadeS(res, *rest)
     return res
 
 
-- 
2.43.0


From be3ab177112cc38af5af498e7233ab4b8347249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 10/91] fix: make_passive_svd works and honours delta

---
 hftools/networks/spar_functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index c9fa308..c5f8383 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -123,11 +123,10 @@ def make_passive_svd(S, delta=1e-6):
     for ss in S:
         ss = np.array(ss, copy=False)
         u, s, v = svd(ss)
-        s = abs(s) - 1
+        s = abs(s) - (1 - delta)
         s[s < 0] = 0
-        s = np.diag(s)
-        delta = matrix_multiply(matrix_multiply(u, s), v)
-        out.append(ss - delta)
+        excess = np.dot(u, np.dot(np.diag(s), v))
+        out.append(ss - excess)
     return S.__class__(out, dims=S.dims)
 
 
-- 
2.43.0


From c8d09472d70aedbd4b79f02dee97be8a6473ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 11/91] fix: converting a multiport array with copy=False
 leaves the source as it was

---
 hftools/networks/multiports.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index adc3125..6b9aae3 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -136,6 +136,10 @@ class _MultiPortArray(_hfarray):
             dims = info
             info = None
         data = np.asanyarray(data)
+        if isinstance(data, _MultiPortArray) and not (
+                isinstance(data, subtype) and data.Z0 == 50.):
+            # The converted values may not end up in the memory of *data*
+            copy = True
         if dims is None:
             if hasattr(data, 'dims'):
                 dims = tuple(data.dims)
-- 
2.43.0


From 0b895d8b09a3f4c8e1c0f82c3a0a7f5088c3f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 12/91] fix: copy of a multiport array keeps values and Z0

---
 hftools/networks/multiports.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 6b9aae3..5c7953b 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -170,6 +170,12 @@ class _MultiPortArray(_hfarray):
         else:
             return np.ndarray.view(self, dtype=dtype, type=type)
 
+    def copy(self):
+        data = self.view(type=hfarray, dtype=self.dtype)
+        out = self.__class__(data, dims=self.dims)
+        out.Z0 = self.Z0
+        return out
+
     def ismatrix(self):
         return (self.ndim >= 2 and
                 isinstance(self.dims[-2], DimMatrix_i) and
-- 
2.43.0


From 3fb0ed97fca2b4cd93ebd90727252146f46c4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 13/91] fix: make_reciprocal does not modify its argument

---
 hftools/networks/spar_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index c5f8383..c69564c 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -148,6 +148,7 @@ def make_passive_eig(S, delta=1e-6):
 
 
 def make_reciprocal(S):
+    S = S.copy()
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-- 
2.43.0


From 5d0a3318b138461cfdf2fcef8b278195f16efb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 14/91] fix: flatten_non_matrix does not reshape its argument

---
 hftools/math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index adb7a25..eefa9b7 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -404,8 +404,7 @@ def matrix_multiply(a, b):
 def flatten_non_matrix(A):
     out = np.ascontiguousarray(A)
     shape = (int(np.multiply.reduce(A.shape[:-2])),) + A.shape[-2:]
-    out.shape = shape
-    return out
+    return out.reshape(shape)
 
 
 def det(A):
-- 
2.43.0


From 3b18a3366ba69b7f12dfd50347227b07f475b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 15/91] fix: merge_blocks does not reshape variables of the
 merged blocks

---
 hftools/file_formats/merge.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..0164ec4 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -195,10 +195,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             try:
                 value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
             except UnicodeError:
-                for x in v:
-                    if np.issubdtype(x.dtype, np.unicode_) and x.shape == ():
-                        x.shape = (1,)
-                q = np.array(v)
+                q = np.array([np.array(x, ndmin=1)
+                              if np.issubdtype(x.dtype, np.unicode_) else x
+                              for x in v])
                 q.shape = q.shape[:-1]
                 value = hfarray(q, dims=ri + v[0].dims, unit=v[0].unit)
 
-- 
2.43.0


From 4e4016d387f349daff9472828cd528578b3ac9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 16/91] fix: from_noisepar does not modify its dataset

---
 hftools/networks/noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 2356c41..e9d5fe7 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -46,6 +46,7 @@ def passive_noise(twoport, Tamb=290):
 
 
 def from_noisepar(dataset):
+    dataset = dataset.copy()
     dataset.S = SArray(dataset.S)
     dataset.ABCD = ABCDArray(dataset.S)
     dataset.Yopt = 1 / 50. * (1 - dataset.Gopt) / (1 + dataset.Gopt)
-- 
2.43.0


From e35fb6936137bc5ed0c71dde58f9cb27472c08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:20 +0000
Subject: [PATCH 17/91] fix: DataBlock.copy and DataBlock.view keep the
 outputformat

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 411cb59..9020548 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -414,6 +414,7 @@ class DataBlock(object):
         out.vardata = self.vardata.copy()
         out.ivardata = self.ivardata.copy()
         out.xname = self.xname
+        out._outputformat = self._outputformat
         return out
 
     def view(self):
@@ -423,6 +424,7 @@ class DataBlock(object):
         out.vardata = self.vardata.view()
         out.ivardata = self.ivardata.copy()
         out.xname = self.xname
+        out._outputformat = self._outputformat
         return out
 
     def filter(self, boolarray):
-- 
2.43.0


From 253d904513e5ccb0602b904f24de7b1fe6c5ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:00 +0000
Subject: [PATCH 18/91] fix: Comments does not share the list of comments it is
 created from

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..0689d72 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -179,7 +179,7 @@ class Comments(object):
     def __init__(self, fullcomments=None, **kw):
         if fullcomments is None:
             fullcomments = []
-        self.fullcomments = fullcomments
+        self.fullcomments = list(fullcomments)
         self.property = {}
         self.property.update(kw)
         self.add_from_comments(fullcomments)
-- 
2.43.0


From 67b1d3f70ca3d6cc924c3551b3953858d694904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:33 +0000
Subject: [PATCH 19/91] fix: hfarray.take labels the result with the taken
 dimension values

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index bd77eb3..53586e5 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -568,7 +568,8 @@ class _hfarray(ndarray):
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
         axis = self.dims_index(axis_handler(self, axis))
         olddim = self.dims[axis]
-        newdim = olddim.__class__(olddim.name, indices)
+        newdim = olddim.__class__(olddim,
+                                  data=np.asarray(olddim.data)[indices])
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
         newdims[axis] = newdim
-- 
2.43.0


From a4b091b60b236cfec7abeb58a0479727e2c03dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:33 +0000
Subject: [PATCH 20/91] fix: reductions and squeeze accept negative axis
 numbers

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 53586e5..453143b 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -975,7 +975,7 @@ def multiple_axis_handler(a, axis):
     for ax in axis:
         if isinstance(ax, integer_types):
             outaxis.append(a.dims[ax])
-            outidx.append(ax)
+            outidx.append(ax + len(a.dims) if ax < 0 else ax)
             continue
         if isinstance(ax, string_types):
             i = a.dims_index(ax)
-- 
2.43.0


From 0703b06c38d6d90f082e9b97e5f463d9c7fac7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:33 +0000
Subject: [PATCH 21/91] fix: sum, mean, std, min, max and cumsum keep the unit

---
 hftools/dataset/arrayobj.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 453143b..fdceaea 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -789,7 +789,7 @@ class _hfarray(ndarray):
             else:
                 return self
         r = np.asarray(self).sum(dimidx, dtype=dtype, out=out, keepdims=True)
-        res = hfarray(r, dims=self.dims)
+        res = hfarray(r, dims=self.dims, unit=self.unit)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
         return res
@@ -804,7 +804,7 @@ class _hfarray(ndarray):
             else:
                 return self
         r = np.asarray(self).mean(dimidx, dtype=dtype, out=out, keepdims=True)
-        res = hfarray(r, dims=self.dims)
+        res = hfarray(r, dims=self.dims, unit=self.unit)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
         return res
@@ -825,7 +825,7 @@ class _hfarray(ndarray):
                 return self
         r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
                                  keepdims=True)
-        res = hfarray(r, dims=self.dims)
+        res = hfarray(r, dims=self.dims, unit=self.unit)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
         return res
@@ -865,7 +865,7 @@ class _hfarray(ndarray):
             else:
                 return self
         r = np.asarray(self).min(dimidx, out=out, keepdims=True)
-        res = hfarray(r, dims=self.dims)
+        res = hfarray(r, dims=self.dims, unit=self.unit)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
         return res
@@ -884,7 +884,7 @@ class _hfarray(ndarray):
             else:
                 return self
         r = np.asarray(self).max(dimidx, out=out, keepdims=True)
-        res = hfarray(r, dims=self.dims)
+        res = hfarray(r, dims=self.dims, unit=self.unit)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
         return res
@@ -903,7 +903,8 @@ class _hfarray(ndarray):
         axis = axis_handler(self, axis)
         result = np.asarray(self).cumsum(axis=self.dims_index(axis),
                                          dtype=dtype, out=out)
-        return self.__class__(result, dims=self.dims, copy=False)
+        return self.__class__(result, dims=self.dims, copy=False,
+                              unit=self.unit)
 
     def help(self):
         out = "\n".join(["class: %(_class)s",
-- 
2.43.0


From f522292c3319888c94b42b836f4b70800f851118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:33 +0000
Subject: [PATCH 22/91] fix: add_dim keeps unit and outputformat

---
 hftools/dataset/arrayobj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index fdceaea..3738043 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -932,7 +932,9 @@ class _hfarray(ndarray):
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-        return self.__class__(out, dims=dims, copy=False)
+        out = self.__class__(out, dims=dims, copy=False, unit=self.unit)
+        out.outputformat = self.outputformat
+        return out
 
 
 def axis_handler(a, axis):
-- 
2.43.0


From 2ec0e39778cb67495e4e39bfe52d1edaf8b7f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:33 +0000
Subject: [PATCH 23/91] fix: indexing with a list or array picks the dimension
 values too

---
 hftools/dataset/arrayobj.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 3738043..2a01063 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -647,9 +647,8 @@ class _hfarray(ndarray):
             reordered = self.reorder_dimensions(*reorder2)
             if len(indices[0].dims) == 1:
                 dim = indices[0].dims[0]
-                newdim = dim.__class__(dim.name,
-                                       np.array(dim.data)[indices[0]],
-                                       unit=dim.unit)
+                newdim = dim.__class__(dim,
+                                       data=np.array(dim.data)[indices[0]])
             else:
                 newdim = get_new_anonymous_dim(self, int(np.sum(indices[0])))
 
@@ -669,6 +668,10 @@ class _hfarray(ndarray):
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
             else:
+                if (isinstance(idx, (list, ndarray)) and
+                        dim.name not in dim_in_indices and
+                        np.ndim(idx) == 1):
+                    dim = dim[np.arange(len(dim.data))[idx]]
                 dims.append(dim_in_indices.get(dim.name, dim))
         if ellipsis_and_ints:
             indices = orig_indices
-- 
2.43.0


From 181b86ec3e9029f04dae4057263327df8160c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:13 +0000
Subject: [PATCH 24/91] fix: DataDict keeps insertion order for keys given at
 construction and by update

---
 hftools/dataset/dataset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 9020548..038539d 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -129,14 +129,18 @@ class DataDict(dict):
     def __setitem__(self, key, value):
         dict.__setitem__(self, key, value)
         if key not in self.order:
-            self.order.append(key)
+            self.order[:] = self.keys()
 
     def setdefault(self, key, value):
         a = dict.setdefault(self, key, value)
         if key not in self.order:
-            self.order.append(key)
+            self.order[:] = self.keys()
         return a
 
+    def update(self, *k, **kw):
+        for key, value in dict(*k, **kw).items():
+            self[key] = value
+
     def pop(self, key, *default):
         value = dict.pop(self, key, *default)
         if key in self.order:
@@ -157,6 +161,7 @@ class DataDict(dict):
         vdata = self[oldname]
         if oldname == newname:
             return
+        self.order[:] = self.keys()
         if newname not in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
-- 
2.43.0


From 58b68a84f2e2f14504f58f7b8a7f958b42abf504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 25/91] fix: interpolate without mode selects along the
 interpolated dimension, in the order asked for

---
 hftools/dataset/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 038539d..80d6670 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -766,13 +766,9 @@ def interpolate(newx, y, defaultmode=None):
     newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]
     if mode in [None, "none"]:
         bools = np.array(newx.data)[:, None] == np.array(oldx.data)[None, :]
-        boolarray = hfarray(bools.any(axis=0),
-                            dims=(oldx,),
-                            unit=y.unit,
-                            outputformat=y.outputformat)
-        if boolarray.sum() != len(newx.data):
+        if not bools.any(axis=1).all():
             raise ValueError("Missing x-values")
-        data = np.array(y, copy=False)[boolarray]
+        data = np.array(y, copy=False).take(bools.argmax(axis=1), dimidx)
     elif mode in ["linear"]:
         data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)
     else:
-- 
2.43.0


From b43bcf605d982fd986456d0a295268527b0f41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:07 +0000
Subject: [PATCH 26/91] fix: remove_rep collapses the reordered data and keeps
 unit and outputformat

---
 hftools/dataset/arrayobj.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 2a01063..e299cb5 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -277,20 +277,20 @@ def remove_rep(data, newdimname="AllReps"):
         dims = list(zip(*order))[1]
 
         newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
-        newdata = hfarray(np.ascontiguousarray(data, dtype=data.dtype),
-                          dims=newdata.dims, dtype=newdata.dtype,
-                          unit=newdata.unit)
         shapes = [data.shape[i] for i, _ in order]
         repsize = int(np.multiply.reduce(shapes))
-        a = np.array(data)
-        a.shape = (data.shape[:order[0][0]] + (repsize,) +
-                   data.shape[order[-1][0] + 1:])
-        dims = (data.dims[:order[0][0]] + (DimRep(newdimname, repsize),) +
-                data.dims[order[-1][0] + 1:])
+        first = order[0][0]
+        tail = first + len(order)
+        a = np.array(newdata).reshape(newdata.shape[:first] + (repsize,) +
+                                      newdata.shape[tail:])
+        dims = (newdata.dims[:first] + (DimRep(newdimname, repsize),) +
+                newdata.dims[tail:])
     else:
         dims = data.dims
         a = data
-    return data.__class__(a, dims=dims, copy=False)
+    out = data.__class__(a, dims=dims, copy=False, unit=data.unit)
+    out.outputformat = data.outputformat
+    return out
 
 
 def make_fullcomplex_array(a):
-- 
2.43.0


From 6864a6b616ad19cf8221cdb998bdfbc896029f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:20 +0000
Subject: [PATCH 27/91] fix: hyper pairs each variable value with its own sweep
 values

---
 hftools/dataset/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 80d6670..ef799f9 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -698,10 +698,11 @@ class DataBlock(object):
                 newname = "%s_index" % x
             else:
                 newname = x
-            dims.append(DimSweep(newname, stable_uniq(self[x]),
+            values = stable_uniq(self[x])
+            dims.append(DimSweep(newname, values,
                                  unit=self[x].unit,
                                  outputformat=self[x].outputformat))
-            sortdata.append(self[x])
+            sortdata.append([values.index(value) for value in self[x]])
         dims = tuple(dims)
         dims_shape = tuple(len(x.data) for x in dims)
 
-- 
2.43.0


From c41b9dd9c4804f4dadb4a6c363278fa81cf2b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:33 +0000
Subject: [PATCH 28/91] fix: filter with an array of values keeps the samples
 at those values

---
 hftools/dataset/dataset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index ef799f9..6d4865d 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -443,12 +443,9 @@ class DataBlock(object):
                 warn(msg)
                 return out
             localdim = self.ivardata[boolarray.dims[0].name]
-            intersection = set(localdim.data).intersection(boolarray)
-            barray = boolarray.astype(bool)
-            barray[...] = False
-            for f in intersection:
-                barray[boolarray == f] = True
-            boolarray = barray
+            wanted = set(np.asarray(boolarray).flat)
+            boolarray = hfarray([x in wanted for x in localdim.data],
+                                dims=(localdim,), dtype=bool)
 
         out = DataBlock()
         out.blockname = self.blockname
-- 
2.43.0


From d72c854b07aec4974a83a2d24cc9f98850f2ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:44 +0000
Subject: [PATCH 29/91] fix: noise_parameters of an ABCD twoport returns Rn,
 not twice Rn

---
 hftools/networks/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index e9d5fe7..18c9595 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -92,7 +92,7 @@ class NoisyTwoport(object):
             CA11 = CA[..., 0, 0]
             CA12 = CA[..., 0, 1]
             CA22 = CA[..., 1, 1]
-            Rn = CA11.real
+            Rn = CA11.real / 2
             Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                     1j * (CA12.imag / CA11))
             Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
-- 
2.43.0


From b39bb84b6707b73d0ec77a98d6d5f0dd0d75ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:44 +0000
Subject: [PATCH 30/91] fix: SArray(S, Z0=...) renormalises S-parameters with
 another Z0

---
 hftools/networks/multiports.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 5c7953b..f8d9d43 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -99,7 +99,8 @@ class _MultiPortArray(_hfarray):
                         accessor = make_accessor(i, j)
                         self._attrfuns[label] = accessor
 
-        if isinstance(data, self.__class__) and self.Z0 == data.Z0:
+        if (isinstance(data, self.__class__) and self.Z0 == data.Z0 and
+                Z0 in (None, data.Z0)):
             pass
         elif isinstance(data, _MultiPortArray):
             if Z0 is None:
@@ -137,7 +138,8 @@ class _MultiPortArray(_hfarray):
             info = None
         data = np.asanyarray(data)
         if isinstance(data, _MultiPortArray) and not (
-                isinstance(data, subtype) and data.Z0 == 50.):
+                isinstance(data, subtype) and data.Z0 == 50. and
+                Z0 in (None, data.Z0)):
             # The converted values may not end up in the memory of *data*
             copy = True
         if dims is None:
-- 
2.43.0


From ab1ca8dc1c5e21e11487f721d3c56554bde6ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 31/91] fix: cascading and deembedding real with complex
 S-parameters keeps the imaginary part

---
 hftools/networks/spar_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index c69564c..bd82e92 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -23,7 +23,8 @@ def cascadeS(S1, S2, *rest):
     s1det = det(S1)
     s2det = det(S2)
     maxshape = tuple(max(x) for x in zip(S1.shape, S2.shape))
-    res = S1.__class__(np.zeros(maxshape, S1.dtype), dims=S1.dims)
+    dtype = np.result_type(S1.dtype, S2.dtype)
+    res = S1.__class__(np.zeros(maxshape, dtype), dims=S1.dims)
     res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
     res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
@@ -51,7 +52,8 @@ def deembedleft(e, X):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 1, 1] * X[..., 0, 0])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X.dtype, e.dtype)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     e11 = (X[..., 0, 0] - e[..., 0, 0])
     e12 = (X[..., 0, 1] * e[..., 1, 0])
     e21 = (X[..., 1, 0] * e[..., 0, 1])
@@ -82,7 +84,8 @@ def deembedright(X, e):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 0, 0] * X[..., 1, 1])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X.dtype, e.dtype)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     res[..., 0, 0] = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 0, 0])
     res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])
     res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])
-- 
2.43.0


From daf863037cf8a7d63a1b5dfbd8b365f422f07329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 32/91] fix: make_matrix holds the values of all four elements

---
 hftools/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index eefa9b7..ba262d2 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -44,7 +44,8 @@ def make_matrix(a, b, c, d):
     a, b, c, d = make_same_dims_list([a, b, c, d])
     abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
     maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
-    res = zeros(maxshape, a.dtype)
+    dtype = np.result_type(a.dtype, b.dtype, c.dtype, d.dtype)
+    res = zeros(maxshape, dtype)
     res[..., 0, 0] = a
     res[..., 0, 1] = b
     res[..., 1, 0] = c
-- 
2.43.0


From 6e4ae39b3f64a23c57d1636b37610b539d6a2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 33/91] fix: matrices built from elements of different dtype
 hold all values

---
 hftools/file_formats/readbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..9ffdd42 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -193,8 +193,9 @@ def combine_elements_to_matrix(data, name):
         j_indices = sorted(j_idx)
         ex = data["%s%d%d" % (name, list(i_idx)[0], list(j_idx)[0])]
         shape = ex.shape
+        dtype = np.result_type(*[data[v].dtype for v in vnames])
         x = np.empty(shape + (len(i_indices), len(j_indices), ),
-                     dtype=ex.dtype)
+                     dtype=dtype)
 
         for i, j in itertools.product(i_indices, j_indices):
             val = data["%s%d%d" % (name, i, j)]
@@ -383,8 +384,9 @@ class ReadFileFormat(object):
         for vname, (elems, i_indices, j_indices) in matrices.items():
             ex = block[elems[0]]
             shape = ex.shape
+            dtype = np.result_type(*[block[elem].dtype for elem in elems])
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=dtype)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
-- 
2.43.0


From e8502f824698f4b953fa93f8b828c3ce9df14919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 34/91] fix: merging blocks whose variables differ in dtype
 keeps all values

---
 hftools/file_formats/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 0164ec4..239f086 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -75,7 +75,7 @@ def merge_variable(association_list):
         length = max(int(x[1].dtype.str[2:]) for x in association_list)
         proto_dtype = np.dtype((prototype.dtype.type, length))
     else:
-        proto_dtype = prototype.dtype
+        proto_dtype = np.result_type(*[x[1].dtype for x in association_list])
     newshape = prototype.shape[:1] + innershape + prototype.shape[1:]
     result = empty(newshape, dtype=proto_dtype)
     unit = []
-- 
2.43.0


From dd65a6657b8414e803b05bd96bc69a4ea6d989b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 35/91] fix: converting integer valued multiports does not
 truncate the result

---
 hftools/networks/multiports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index f8d9d43..9baad9a 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -142,6 +142,8 @@ class _MultiPortArray(_hfarray):
                 Z0 in (None, data.Z0)):
             # The converted values may not end up in the memory of *data*
             copy = True
+            if dtype is None and data.dtype.kind in "biu":
+                dtype = float
         if dims is None:
             if hasattr(data, 'dims'):
                 dims = tuple(data.dims)
-- 
2.43.0


From a9b4f6c1cfb204bf1110b696e2cc1265267e932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:09 +0000
Subject: [PATCH 36/91] fix: make_reciprocal picks the root closest to S12

---
 hftools/networks/spar_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index bd82e92..0287700 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -155,7 +155,7 @@ def make_reciprocal(S):
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-    A12 = np.where(np.angle(S12 / s12) < 1, S12, -S12)
+    A12 = np.where(abs(np.angle(S12 / s12)) < np.pi / 2, S12, -S12)
     S[..., 0, 1] = A12
     S[..., 1, 0] = A12
     return S
-- 
2.43.0


From 35d00310012ca0246ee09cbff5f4e6192a5bf4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:18 +0000
Subject: [PATCH 37/91] fix: numbers with unit keep their whole exponent

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..defb05e 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,7 +64,7 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
+reg_value = re.compile(r"[-+0-9.]+([eE][-+]?[0-9]+)?")
 reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
 
 
-- 
2.43.0


From 3aff85ecdc9bb5a79aa294b215c1f8366c6ab76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:18 +0000
Subject: [PATCH 38/91] fix: a unit in brackets after a number is recognised

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index defb05e..f20e9c7 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -77,7 +77,7 @@ def string_number_with_unit_to_value(string_number):
         reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
         unit_res = reg_unit.match(string_number[res.span()[-1]:])
         if unit_res:
-            unit = unit_res.group()
+            unit = unit_res.group(1)
         else:
             unit = None
     else:
-- 
2.43.0


From 7c79d170b5c18b5295ffc5abae5a6a5cb953a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:18 +0000
Subject: [PATCH 39/91] fix: numbers of 1e24 and above are formatted with
 prefix Y

---
 hftools/constants/si_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index f20e9c7..48bcfb9 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -27,12 +27,12 @@ siprefixes = dict(d=0.1, c=0.01,
 siprefixes[""] = 1.
 si_exp_to_prefixes = {0: "",
                       3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                      18: "E", 21: "Z", -24: "Y",
+                      18: "E", 21: "Z", 24: "Y",
                       -3: "m", -6: "u", -9: "n", -12: "p", -15: "f",
                       -18: "a", -21: "z", -24: "y"}
 si_exp_to_prefixes_greek = {0: "",
                             3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                            18: "E", 21: "Z", -24: "Y",
+                            18: "E", 21: "Z", 24: "Y",
                             -3: "m", -6: "μ", -9: "n", -12: "p", -15: "f",
                             -18: "a", -21: "z", -24: "y"}
 
-- 
2.43.0


From 418e50d7646febe998bf197ec5788faa99a8c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 40/91] fix: reading MDIF files ends without RuntimeError at
 end of file

---
 hftools/file_formats/mdif.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..acf974e 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -197,18 +197,25 @@ class ReadMDIFFileFormat(ReadFileFormat):
         """Bunch tagged stream into sub blocks. Each sub block
         containing a measurement data block.
         """
+        def split_eq(rad):
+            return [x.strip() for x in rad.split("=")]
+
         while True:
-            comments = ManyOptional("COMMENT")(stream)
-
-            def split_eq(rad):
-                return [x.strip() for x in rad.split("=")]
-            var = ManyOptional("VAR", split_eq)(stream)
-            blockname = One("BEGIN", "Must have Begin after VARs")(stream)
-            attribs = ManyOptional("ATTRIB", split_eq)(stream)
-            header = ManyOptional("HEADER", lambda rad: rad.split())(stream)
-            data = ManyOptional("DATA")(stream)
+            try:
+                comments = ManyOptional("COMMENT")(stream)
+                var = ManyOptional("VAR", split_eq)(stream)
+            except StopIteration:  # no further block in file
+                return
+            try:
+                blockname = One("BEGIN", "Must have Begin after VARs")(stream)
+                attribs = ManyOptional("ATTRIB", split_eq)(stream)
+                header = ManyOptional("HEADER",
+                                      lambda rad: rad.split())(stream)
+                data = ManyOptional("DATA")(stream)
+                One("END", "Must have END after DATA")(stream)
+            except StopIteration:
+                raise MDIFError("Unexpected end of file")
             out = (comments, var, blockname, header, attribs, data)
-            One("END", "Must have END after DATA")(stream)
             yield out
 
     def parse_blocks(self, stream):
-- 
2.43.0


From 91926412b2925bada2b15dc6e53202763dc87485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 41/91] fix: read_mdif raises for a blockname that is not in
 the file

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index acf974e..20b1bf8 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -155,7 +155,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
-- 
2.43.0


From b5291181f187f864463db395b14c5c8279eb8519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 42/91] fix: data blocks with only independent variables can be
 written

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 0689d72..eef81d3 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -387,7 +387,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
-- 
2.43.0


From fc22d4b7ed081411b038efd1aa8f0c0c6c98af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 43/91] fix: One and OneOf apply func like the other token
 parsers

---
 hftools/file_formats/readbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 9ffdd42..a86569f 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -104,7 +104,7 @@ def OneOf(names, error, func=None):
         tokens = []
         current_token = next(stream)
         if current_token.tag in names:
-            tokens.append(current_token.rad)
+            tokens.append(func(current_token.rad))
         else:
             raise Exception(error)
         return tokens
-- 
2.43.0


From bf8389042442be3f72582ccbb9a834c1bc0ec8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 44/91] fix: reading an empty spdata file reports that there
 are no blocks

---
 hftools/file_formats/spdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..86ffabe 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -82,7 +82,10 @@ class ReadSPFileFormat(ReadFileFormat):
         """Bunch tagged stream into sub blocks. Each sub block
         containing a measurement data block.
         """
-        token, lineno, rad = next(stream)
+        try:
+            token, lineno, rad = next(stream)
+        except StopIteration:  # empty file
+            return
         running = True
         while running:
             comments = []
-- 
2.43.0


From d532e8b40d8638493d585c64a2e3baddec5451f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 45/91] fix: muwave reader raised NameError for other matlab
 files

---
 hftools/file_formats/muwave_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 6ac9cd2..c5cee92 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -142,7 +142,7 @@ def build_data(data):
 def read_single_muwave_matlabdata(filename, **kw):
     data = sio.loadmat(filename)
     if "swp" not in data:
-        raise MuwaveIOError("%r is not a muwave matlab file"%filename)
+        raise HFToolsIOError("%r is not a muwave matlab file"%filename)
     swpdata = data["swp"][0, 0]["data"][0, :]
     out = []
     for d in swpdata:
-- 
2.43.0


From 65d844a17243d18b69e22c9f3e008c043bf7ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:09 +0000
Subject: [PATCH 46/91] fix: touchstone files with a single frequency can be
 read

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..dc6001a 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -80,7 +80,7 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    max_N = int(sqrt((sum(map(len, data)) - 1) / 2.)) + 1
     n = 1  # number of ports
     for n in range(1, max_N):
         N = 2 * n ** 2 + 1  # number of data points per frequency
-- 
2.43.0


From e937392329745ec0dcaedb18bc8dea49e23fc6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:33 +0000
Subject: [PATCH 47/91] fix: save_mdif writes swept variables and blocks
 without attributes

---
 hftools/file_formats/mdif.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 20b1bf8..6d9a134 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -470,7 +470,8 @@ def fixnames(mdif):
 def fmt_mdif_block(dims, db):
     dimnames = [x.name for x in dims]
     fmts = [x.outputformat for x in dims]
-    for coord in itertools.product(*[x.data for x in dims[1:]]):
+    for index in itertools.product(*[range(len(x.data)) for x in dims[1:]]):
+        coord = [dim.data[i] for dim, i in zip(dims[1:], index)]
         for iname, fmt, value in zip(dimnames[1:], fmts[1:], coord):
 #            import pdb;pdb.set_trace()
             yield [("VAR SWEEP.%s(real) = " + fmt) % (iname, value)]
@@ -479,21 +480,21 @@ def fmt_mdif_block(dims, db):
             blockname = "DATABLOCK"
         yield ["BEGIN %s" % blockname]
 
-        attribnames, attribdata = zip(*[(k, v) for (k, v) in db.vardata.items()
-                                        if v.dims == dims[1:]])
+        attribs = [(k, v) for (k, v) in db.vardata.items()
+                   if v.dims == dims[1:]]
+        attribnames = [k for k, v in attribs]
+        attribdata = [v for k, v in attribs]
         attribheader = format_complex_header(attribnames, attribdata,
                                              "%s(real)", "%s(complex)",
                                              None, unit_fmt=False)
         for name, data in zip(attribheader, attribdata):
-            yield [("# %s = %s" % (name, data.outputformat)) % data[coord]]
+            yield [("# %s = %s" % (name, data.outputformat)) % data[index]]
 
-        header, columns = zip(*[(k, v) for (k, v) in db.vardata.items()
+        columns = [(k, v) for (k, v) in db.vardata.items() if v.dims == dims]
+        header = [dims[0].name] + [k for k, v in columns]
 
-                                if v.dims == dims])
-        header = (dims[0].name, ) + header
-
-        idx = (Ellipsis,) + coord
-        columns = [col[idx] for col in columns]
+        idx = (Ellipsis,) + index
+        columns = [v[idx] for k, v in columns]
         columns = [hfarray(dims[0])] + columns
         outheader = format_complex_header(header, columns,
                                           "%s(real)", "%s(complex)",
-- 
2.43.0


From 0f76c19fa97b27816bb9da492636c5f5d979b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:07 +0000
Subject: [PATCH 48/91] fix: order of dim consistent blocks does not depend on
 hashing

---
 hftools/dataset/dataset.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 6d4865d..6fb709f 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -57,15 +57,16 @@ def subset_datablock_by_dims(db, dims):
 
 
 def yield_dim_consistent_datablocks(db):
-    dimset = set()
+    dimlist = []
     for v in db.vardata.values():
-        dimset.add(v.dims)
-    while dimset:
-        longest = sorted(dimset, key=len)[-1]
+        if v.dims not in dimlist:
+            dimlist.append(v.dims)
+    while dimlist:
+        longest = sorted(dimlist, key=len)[-1]
         yield longest, subset_datablock_by_dims(db, longest)
-        dimset.discard(longest)
-        if len(longest) > 1:
-            dimset.discard(longest[1:])
+        dimlist.remove(longest)
+        if len(longest) > 1 and longest[1:] in dimlist:
+            dimlist.remove(longest[1:])
 
 
 def convert_matrices_to_elements(db, formatelement=None):
-- 
2.43.0


From 34e72e00d44586220b3cd52f632ed27eb221a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:07 +0000
Subject: [PATCH 49/91] fix: order of written independent variables does not
 depend on hashing

---
 hftools/file_formats/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index eef81d3..d30e764 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -450,7 +450,9 @@ def db_iterator(indb, fmt_block_generator):
     for names in datablock.keys():
         used_ivars = used_ivars.union(names)
 
-    for vname in set(indb.ivardata).difference(used_ivars):
+    for vname in indb.ivardata:
+        if vname in used_ivars:
+            continue
         q = datablock.setdefault((vname,), DataBlock())
         if q.comments is None:
             q.comments = Comments()
-- 
2.43.0


From 34e088ba5f8d46e8843473b4b0a6da8c43bdcbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:07 +0000
Subject: [PATCH 50/91] fix: merge_blocks keeps the order of the variables

---
 hftools/file_formats/merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 239f086..b332550 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -171,13 +171,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             db[k] = hfarray([x.data[0] for x in v],
                             dims=dims, unit=v[0].unit)
 
-    varnames = set()
+    varnames = []
     for b in blocks:
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
         for k in b.vardata.keys():
-            varnames.add(k)
+            if k not in varnames:
+                varnames.append(k)
 
     for vname in varnames:
         v = []
-- 
2.43.0


From c194b2ec2dff566e4c62091ad00f96e1f96ef09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:07 +0000
Subject: [PATCH 51/91] fix: merge_blocks_do_hyper works in python 3

---
 hftools/file_formats/merge.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index b332550..f8ffabc 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -55,7 +55,7 @@ def association_list_in_hypercube_order(association_list):
                         itertools.product(*[range(len(x)) for x in uniq])):
         idx = indices.index(i)
         out.append((int_i, association_list[idx][1]))
-    return names, map(sorted, uniq), out
+    return names, list(map(sorted, uniq)), out
 
 
 def merge_variable(association_list):
@@ -114,10 +114,6 @@ def merge_blocks_do_hyper(blocks):
             if vname not in ivars:
                 ivars[vname] = v
 
-    free_vars = set()
-    for vname, assoc in data.items():
-        free_vars.add(zip(*assoc)[0])
-    free_vars = list(free_vars)
     for vname, assoc in data.items():
         v, indexvars, dim = merge_variable(assoc)
         outdata[vname] = v
-- 
2.43.0


From 77075dc33f8402f0e36e1ca47a24c1bb8574f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:07 +0000
Subject: [PATCH 52/91] fix: save_touchstone accepts data blocks without
 comments

---
 hftools/file_formats/touchstone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index dc6001a..817ba00 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -228,9 +228,10 @@ def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
     with open(filename, "w") as fil:
-        for comment in db.comments.fullcomments:
-            fil.write("!" + comment)
-            fil.write("\n")
+        if db.comments is not None:
+            for comment in db.comments.fullcomments:
+                fil.write("!" + comment)
+                fil.write("\n")
         for k, v in db.vardata.items():
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
-- 
2.43.0


From 044b0ddc5ba6757d9856558c35afbbde4bdb6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:07 +0000
Subject: [PATCH 53/91] fix: save_touchstone writes matrices larger than 2x2
 row by row, as they are read

---
 hftools/file_formats/touchstone.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 817ba00..dec1e07 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -239,8 +239,11 @@ def save_touchstone(db, filename):
         fil.write("#HZ S RI R 50\n")
 
 
+        # only twoports are written columnwise
+        twoport = db.S.shape[-2:] == (2, 2)
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
+                                               "%s[%s,%s]",
+                                               fortranorder=twoport)
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-- 
2.43.0


From d9a3f9f91c84b04080c24cc935acc1746fde5061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:37 +0000
Subject: [PATCH 54/91] fix: read_data recognises binary files and closes the
 file on errors

---
 hftools/file_formats/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..27dae18 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,6 +25,7 @@ This package contains routines to read and write data.
 
 """
 import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -70,14 +71,13 @@ def read_data(filename, merge=True, guess_unit=True,
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
-    for rad in fil:
-        for fun, readfun in isfile:
-            if fun(fname, rad):
-                fil.close()
-                return readfun(filename, merge=merge, guess_unit=guess_unit,
-                               property_to_vars=property_to_vars, **kw)
-    fil.close()
+    with io.open(fname, encoding="cp1252", errors="replace") as fil:
+        for rad in fil:
+            for fun, readfun in isfile:
+                if fun(fname, rad):
+                    return readfun(filename, merge=merge,
+                                   guess_unit=guess_unit,
+                                   property_to_vars=property_to_vars, **kw)
     return read_spdata(filename, merge=merge, guess_unit=guess_unit,
                        property_to_vars=property_to_vars, **kw)
 
-- 
2.43.0


From 0295bcb6bf76d5322fc021bd7d42e70c6e45c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:37 +0000
Subject: [PATCH 55/91] fix: save_spdata closes its file when writing fails

---
 hftools/file_formats/spdata.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 86ffabe..54fcf13 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -183,15 +183,11 @@ def save_spdata(db, filename, encoding="cp1252"):
     """Write a Datablock to a sp-format file with name filename.
     """
     if isinstance(filename, string_types):
-        fil = io.open(filename, "w", encoding=encoding)
-    else:
-        fil = filename
+        with io.open(filename, "w", encoding=encoding) as fil:
+            return save_spdata(db, fil)
     for rad in db_iterator(db, format_sp_block):
-        fil.write(u"\t".join(rad))
-        fil.write(u"\n")
-
-    if isinstance(filename, string_types):
-        fil.close()
+        filename.write(u"\t".join(rad))
+        filename.write(u"\n")
 
 
 def read_spdata(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From fc156ecbf284672ee0f97705b24072fe6df5c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:37 +0000
Subject: [PATCH 56/91] fix: save_mdif closes its file when writing fails

---
 hftools/file_formats/mdif.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 6d9a134..1e3ace9 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -520,13 +520,12 @@ def loop_db(db):
 
 
 def save_mdif(db, filename):
-    fil = open(filename, "w")
-    fil.write("!Created: %s\n" % time.asctime())
-    #for rad in db_iterator(db, format_mdif_block):
-    for rad in loop_db(convert_matrices_to_elements(db)):
-        fil.write("\t".join(rad))
-        fil.write("\n")
-    fil.close()
+    with open(filename, "w") as fil:
+        fil.write("!Created: %s\n" % time.asctime())
+        #for rad in db_iterator(db, format_mdif_block):
+        for rad in loop_db(convert_matrices_to_elements(db)):
+            fil.write("\t".join(rad))
+            fil.write("\n")
 
 
 def read_mdif(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From 1fbef974f8c6d11c80f2f2bd4a0b20c048175ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:37 +0000
Subject: [PATCH 57/91] fix: hdf5 version 0.1 closes its file on errors

---
 hftools/file_formats/hdf5/v_01.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..6a88059 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -27,9 +27,9 @@ def unpack_dim(dim):
 
 def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
     if isinstance(h5file, string_types):
-        fil = h5py.File(h5file, mode)
-    else:
-        fil = h5file
+        with h5py.File(h5file, mode) as fil:
+            return save_hdf5(db, fil, name=name, compression=compression)
+    fil = h5file
     grp = fil.create_group(name)
     if db.blockname is None:
         blockname = "None"
@@ -74,8 +74,6 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         dset.attrs[r"info\class"] = klass
         dset.attrs[r"info\unit"] = cast_bytes(unit if unit is not None else "None")
         dset.attrs[r"info\dtype"] = datadtype
-    if isinstance(h5file, string_types):
-        fil.close()
 
 
 dims_dict = dict((name, dim) for name, dim in hftools.dataset.__dict__.items() if isinstance(dim, type) and issubclass(dim, DimBase))
@@ -83,9 +81,9 @@ dims_dict = dict((name, dim) for name, dim in hftools.dataset.__dict__.items() i
 
 def read_hdf5(h5file, name="datablock", **kw):
     if isinstance(h5file, string_types):
-        fil = h5py.File(h5file, "r")
-    else:
-        fil = h5file
+        with h5py.File(h5file, "r") as fil:
+            return read_hdf5(fil, name=name, **kw)
+    fil = h5file
     db = DataBlock()
     grp = fil[name]
     blockname = grp.attrs["Blockname"]
@@ -118,8 +116,6 @@ def read_hdf5(h5file, name="datablock", **kw):
         if unit.lower() == "none":
             unit = None
         db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)
-    if isinstance(h5file, string_types):
-        fil.close()
 
     if kw.get("property_to_vars", False):
         db.values_from_property()
-- 
2.43.0


From d0a1f73a711e5ed726f38262be097998f6ecc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:18 +0000
Subject: [PATCH 58/91] fix: save_all_figures_to_pdf closes its file on errors

---
 hftools/plotting/helper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..b43ea36 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -678,10 +678,9 @@ def save_all_figures_to_pdf(filename, *kw):
     filename = hftools.path(filename)
     if filename.splitext()[1].lower() != ".pdf":
         raise ValueError("save_all_figures_to_pdf can only handle pdf files.")
-    pdffile = PdfPages(filename)
-    for fig in all_figures():
-        fig.savefig(pdffile, format="pdf")
-    pdffile.close()
+    with PdfPages(filename) as pdffile:
+        for fig in all_figures():
+            fig.savefig(pdffile, format="pdf")
 
 
 def build_figlegend(axes=None):
-- 
2.43.0


From 475076c2219d4cbea7564e2eb8f8ce0bc76ea16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:18 +0000
Subject: [PATCH 59/91] fix: append_hdf5 stores the value of the appended index

---
 hftools/file_formats/hdf5/v_02.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..82be6f7 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -185,7 +185,7 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         expanddim = DimRep("INDEX", 1)
     idx = filehandle[expanddim.name][-1] + 1
     expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
+    filehandle[expanddim.name][-1] = idx
 
     for k, v in filehandle.items():
         uk = unescape_varname(k)
-- 
2.43.0


From 3fc986f3c96db7d6ef8fe031eaa46e6aad1ac301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:18 +0000
Subject: [PATCH 60/91] fix: append_hdf5 leaves the file as it was when a
 variable is missing

---
 hftools/file_formats/hdf5/v_02.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 82be6f7..2135670 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -183,6 +183,12 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
+    for k in filehandle:
+        uk = unescape_varname(k)
+        if uk in db.ivardata or uk == expanddim.name:
+            continue
+        if uk not in db.vardata:
+            raise ValueError("Variable %r missing in db, can not append" % uk)
     idx = filehandle[expanddim.name][-1] + 1
     expand_dataset(filehandle[expanddim.name], 1, 0)
     filehandle[expanddim.name][-1] = idx
@@ -191,8 +197,6 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         uk = unescape_varname(k)
         if uk in db.ivardata or uk == expanddim.name:
             continue
-        if uk not in db.vardata:
-            raise ValueError("Variable %r missing in db, can not append" % uk)
         diskdata = filehandle[k]
         ax = diskdata.maxshape.index(None)
         expand_dataset(diskdata, 1, ax)
-- 
2.43.0


From e94361536441dde8a4803dfb286bcadc586d0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:18 +0000
Subject: [PATCH 61/91] fix: hdf5 0.2 restores name, dtype and outputformat of
 dimensions

---
 hftools/file_formats/hdf5/v_02.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 2135670..edc84d4 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -48,9 +48,11 @@ def getvar(db, key):
     for x in X.dims:
         if len(x):
             dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
-                         x[0][...],
-                         unit = x[0].attrs.get("unit", None))
+            dim = dimcls(unescape_varname(x[0].name.strip("/")),
+                         np.array(x[0][...],
+                                  dtype=x[0].attrs.get("dtype", None)),
+                         unit=x[0].attrs.get("unit", None),
+                         outputformat=x[0].attrs.get("outputformat", None))
             dims.append(dim)
 
     unit = X.attrs.get("unit", None)
@@ -158,8 +160,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         create_dataset(filehandle, ek, v, expandable=expandable)
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            ed = escape_varname(dv.name)
+            filehandle[ek].dims.create_scale(filehandle[ed])
+            filehandle[ek].dims[idx].attach_scale(filehandle[ed])
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
-- 
2.43.0


From a750a182c59d6a699cb34a3c03452df580bcd13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:35 +0000
Subject: [PATCH 62/91] fix: hdf5 0.2 files with any kind of dimension can be
 read

---
 hftools/file_formats/hdf5/v_02.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index edc84d4..7bba9fa 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -16,6 +16,8 @@ except ImportError:  # pragma: no cover
 import numpy as np
 from hftools.dataset import DimRep, DimSweep, hfarray, DataBlock,\
     DimMatrix_i, DimMatrix_j, DimPartial
+from hftools.dataset.dim import DimAnonymous, DimBase, DiagAxis,\
+    ComplexDiagAxis, ComplexIndepAxis, ComplexDerivAxis
 from hftools.py3compat import PY3, cast_unicode
 from hftools.dataset.comments import Comments
 #from hftools.file_formats.hdf5.hdf5 import hdf5context
@@ -26,6 +28,12 @@ dimrep = {"DimRep": DimRep,
           "DimMatrix_i": DimMatrix_i,
           "DimMatrix_j": DimMatrix_j,
           "DimPartial": DimPartial,
+          "DimAnonymous": DimAnonymous,
+          "DimBase": DimBase,
+          "DiagAxis": DiagAxis,
+          "ComplexDiagAxis": ComplexDiagAxis,
+          "ComplexIndepAxis": ComplexIndepAxis,
+          "ComplexDerivAxis": ComplexDerivAxis,
           }
 
 
-- 
2.43.0


From ec371fa459f03c9c701b1d0e3b9c195a3e557471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:35 +0000
Subject: [PATCH 63/91] fix: hdf5 0.2 reads dimensions that no variable uses

---
 hftools/file_formats/hdf5/v_02.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 7bba9fa..533e4b6 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -49,19 +49,21 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def getdim(x):
+    dimcls = dimrep[cast_unicode(x.attrs.get("dimtype", "DimSweep"))]
+    return dimcls(unescape_varname(x.name.strip("/")),
+                  np.array(x[...], dtype=x.attrs.get("dtype", None)),
+                  unit=x.attrs.get("unit", None),
+                  outputformat=x.attrs.get("outputformat", None))
+
+
 def getvar(db, key):
     X = db[key]
 
     dims = []
     for x in X.dims:
         if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(unescape_varname(x[0].name.strip("/")),
-                         np.array(x[0][...],
-                                  dtype=x[0].attrs.get("dtype", None)),
-                         unit=x[0].attrs.get("unit", None),
-                         outputformat=x[0].attrs.get("outputformat", None))
-            dims.append(dim)
+            dims.append(getdim(x[0]))
 
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
@@ -115,6 +117,10 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
+        for k in filehandle:
+            uk = unescape_varname(k)
+            if "dimtype" in filehandle[k].attrs and uk not in db.ivardata:
+                db[uk] = getdim(filehandle[k])
         db.comments = Comments()
         return db
     else:
-- 
2.43.0


From 38208d7dd694e1a43a530e8064079caca46be399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:35 +0000
Subject: [PATCH 64/91] fix: hdf5 0.1 restores anonymous dimensions as such

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index 6a88059..32b29e4 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -76,7 +76,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         dset.attrs[r"info\dtype"] = datadtype
 
 
-dims_dict = dict((name, dim) for name, dim in hftools.dataset.__dict__.items() if isinstance(dim, type) and issubclass(dim, DimBase))
+dims_dict = dict((name, dim) for name, dim in hftools.dataset.dim.__dict__.items() if isinstance(dim, type) and issubclass(dim, DimBase))
 #print dims
 
 def read_hdf5(h5file, name="datablock", **kw):
-- 
2.43.0


From 85ff50287eff49356c89680c63e77b2da43da247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:27 +0000
Subject: [PATCH 65/91] fix: save_touchstone writes the reference impedance of
 the data

---
 hftools/file_formats/touchstone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index dec1e07..456be53 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -236,8 +236,8 @@ def save_touchstone(db, filename):
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
 #            fil.write("\t".join(rad))
-        fil.write("#HZ S RI R 50\n")
-
+        z0 = db.Z0 if "Z0" in db.vardata and db.Z0.shape == () else 50
+        fil.write("#HZ S RI R %.16g\n" % z0)
 
         # only twoports are written columnwise
         twoport = db.S.shape[-2:] == (2, 2)
-- 
2.43.0


From 7e6bb0a1e69d9b4ac92ecc63472ddb10378aa7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:27 +0000
Subject: [PATCH 66/91] fix: touchstone and citi files are written in the
 encoding they are read with

---
 hftools/file_formats/citi.py       | 3 ++-
 hftools/file_formats/touchstone.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..74ed529 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -16,6 +16,7 @@ CITI File Format
     .. autoexception:: CITIFileError
 """
 from __future__ import print_function
+import codecs
 import re
 
 import numpy as np
@@ -246,7 +247,7 @@ def is_citi(filename, rad):
 def save_citi(db, filename):
     """Write a Datablock to a sp-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with codecs.open(filename, "w", encoding="cp1252") as fil:
         for rad in format_citi_block(db):
             fil.write(rad)
             fil.write("\n")
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 456be53..3562e05 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -16,6 +16,7 @@ Touchstone
     .. autofunction:: save_touchstone
 
 """
+import codecs
 import re
 import numpy as np
 from numpy import iscomplexobj, sqrt
@@ -227,7 +228,7 @@ def format_touchstone_block(sweepvars, header, fmts,
 def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with codecs.open(filename, "w", encoding="cp1252") as fil:
         if db.comments is not None:
             for comment in db.comments.fullcomments:
                 fil.write("!" + comment)
-- 
2.43.0


From ec7f72053d18f611f7cfa6f0b0cc1954d9e032f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:09 +0000
Subject: [PATCH 67/91] fix: hdf5 0.1 restores the unit of dimensions

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index 32b29e4..4d95a9c 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -102,7 +102,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-- 
2.43.0


From a506e1076a28d566279b2b2fbfdd19464fa8f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:29 +0000
Subject: [PATCH 68/91] fix: hdf5 0.2 files with independent and derivative
 axes can be read

---
 hftools/file_formats/hdf5/v_02.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 533e4b6..864e16f 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -17,7 +17,8 @@ import numpy as np
 from hftools.dataset import DimRep, DimSweep, hfarray, DataBlock,\
     DimMatrix_i, DimMatrix_j, DimPartial
 from hftools.dataset.dim import DimAnonymous, DimBase, DiagAxis,\
-    ComplexDiagAxis, ComplexIndepAxis, ComplexDerivAxis
+    ComplexDiagAxis, ComplexIndepAxis, ComplexDerivAxis, IndepAxis, DerivAxis,\
+    DimMatrix_Indep_i, DimMatrix_Deriv_i, DimMatrix_Indep_j, DimMatrix_Deriv_j
 from hftools.py3compat import PY3, cast_unicode
 from hftools.dataset.comments import Comments
 #from hftools.file_formats.hdf5.hdf5 import hdf5context
@@ -31,6 +32,12 @@ dimrep = {"DimRep": DimRep,
           "DimAnonymous": DimAnonymous,
           "DimBase": DimBase,
           "DiagAxis": DiagAxis,
+          "IndepAxis": IndepAxis,
+          "DerivAxis": DerivAxis,
+          "DimMatrix_Indep_i": DimMatrix_Indep_i,
+          "DimMatrix_Deriv_i": DimMatrix_Deriv_i,
+          "DimMatrix_Indep_j": DimMatrix_Indep_j,
+          "DimMatrix_Deriv_j": DimMatrix_Deriv_j,
           "ComplexDiagAxis": ComplexDiagAxis,
           "ComplexIndepAxis": ComplexIndepAxis,
           "ComplexDerivAxis": ComplexDerivAxis,
-- 
2.43.0


From 42e6e43e4adeb4ebbdd0b0d8a5338787ca7cd9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:13 +0000
Subject: [PATCH 69/91] fix: reject sp-data blocks with ragged rows

Only the first row was compared with the header; longer or shorter rows
further down silently truncated the columns (zip).
---
 hftools/file_formats/spdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 54fcf13..a21aa75 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -121,7 +121,7 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if any(Nhead != len(row) for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
-- 
2.43.0


From f9578a0a6f8a2b7d48c6bbabfc385218add2810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:13 +0000
Subject: [PATCH 70/91] fix: save_touchstone writes real matrices as pairs

The header says RI, but a real S was written with one number per element,
giving a file that can not be read.
---
 hftools/file_formats/touchstone.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 3562e05..edda14e 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -248,13 +248,11 @@ def save_touchstone(db, filename):
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-            out = []
-            for elem, fmt in zip(row, fmts):
-                if iscomplexobj(elem):
-                    out.append(fmt % elem.real)
-                    out.append(fmt % elem.imag)
-                else:
-                    out.append(fmt % elem)
+            out = [fmts[0] % row[0]]
+            # RI format, real matrices are also written as pairs
+            for elem, fmt in zip(row[1:], fmts[1:]):
+                out.append(fmt % elem.real)
+                out.append(fmt % elem.imag)
             fil.write("\t".join(out))
             fil.write("\n")
 
-- 
2.43.0


From 515645c0e9973b158f8b3495567be6c717a6f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:13 +0000
Subject: [PATCH 71/91] fix: citi reader accepts signed and non finite data
 lines

save_citi writes nan and inf, and other writers use a leading +; such lines
were rejected as unknown.
---
 hftools/file_formats/citi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 74ed529..fdd1d3e 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -38,7 +38,7 @@ reg_num_unit = re.compile(r"^[ \t]*([-0-9.eE]+) ?"
 class CITIFileError(HFToolsIOError):
     pass
 
-reg_data = re.compile("[-0-9eE.]+")
+reg_data = re.compile("[-+]?([0-9eE.]+|nan|inf)")
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-- 
2.43.0


From d5eaf39085bb73013316b5dfef8a505b65a00d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:25 +0000
Subject: [PATCH 72/91] fix: mdif reader refuses data lines with more values
 than variables

---
 hftools/file_formats/mdif.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 1e3ace9..f09556d 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -65,6 +65,9 @@ class GetData(object):
                 linedata = datastream.pop(0).split()
                 for func, varname in lineparser:
                     vardata.setdefault(varname, []).append(func(linedata))
+                if linedata:
+                    msg = "More values than variables in header: %r"
+                    raise MDIFError(msg % (linedata,))
             if not datastream:
                 break
         return vardata
-- 
2.43.0


From 0d9ea4b0e5a6057d14ee85ba09c9a5e5e3dd8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:25 +0000
Subject: [PATCH 73/91] fix: read_mdif of a pattern without matching files
 raises

---
 hftools/file_formats/mdif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index f09556d..ccfcb20 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -132,6 +132,8 @@ class ReadMDIFFileFormat(ReadFileFormat):
             filenames = glob(filename)
         else:
             filenames = [filename]
+        if not filenames:
+            raise IOError("Pattern %r did not match any files" % filename)
         objs = {}
         for idx, fname in enumerate(filenames):
             with open(fname) as fil:
-- 
2.43.0


From 601447969fcc6260bb6db1c4b845dda47c6dd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:25 +0000
Subject: [PATCH 74/91] fix: reduction over a dimension class that is not
 present raises IndexError

---
 hftools/dataset/arrayobj.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index e299cb5..c741657 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -987,10 +987,14 @@ def multiple_axis_handler(a, axis):
             i = a.dims_index(ax)
             ax = a.dims[i]
         if isinstance(ax, type) and issubclass(ax, DimBase):
-            for dimidx, dim in enumerate(a.dims):
-                if isinstance(dim, ax):
-                    outaxis.append(dim)
-                    outidx.append(dimidx)
+            found = [(dim, dimidx) for dimidx, dim in enumerate(a.dims)
+                     if isinstance(dim, ax)]
+            if not found:
+                msg = "%r dimension not present in dims %r"
+                raise IndexError(msg % (ax.__name__, a.dims))
+            for dim, dimidx in found:
+                outaxis.append(dim)
+                outidx.append(dimidx)
         elif isinstance(ax, DimBase) and ax in a.dims:
             outaxis.append(ax)
             outidx.append(a.dims.index(ax))
-- 
2.43.0


From 6aef1c3a7a7c06a1b017ec411b299a99457a2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:05 +0000
Subject: [PATCH 75/91] fix: get_current_figure_position indexes a map object

---
 hftools/plotting/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index b43ea36..8b818c8 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -906,7 +906,7 @@ def get_current_figure_position(fig=None):
     else:
         fig = Gcf.figs[fig]
     wm_geom = fig.window.wm_geometry()
-    (x, y) = map(int, _reg_split_wm_geometry.split(wm_geom))[2:]
+    (x, y) = list(map(int, _reg_split_wm_geometry.split(wm_geom)))[2:]
     return x, y
 
 
-- 
2.43.0


From cfed7f7b2832dd2b7323a3d6edd2c19c6c435b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 76/91] fix: 'in' of a config section disagrees with lookup
 when nested in a list

---
 hftools/file_formats/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..63fee49 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -74,7 +74,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
-- 
2.43.0


From 9d5da7eea43f4915aeceffb0bb44d60d0fef05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 77/91] fix: copy of a config section loses its scope, copy of
 a LexicalConfig raises

---
 hftools/file_formats/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 63fee49..d83ee4e 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -104,7 +104,9 @@ class LexicalScopeDict(OrderedDict):
         return out
 
     def copy(self):
-        return LexicalScopeDict(OrderedDict.copy(self))
+        out = LexicalScopeDict(self.items())
+        out.parent = self.parent
+        return out
 
     def __repr__(self):
         return dict.__repr__(self)
-- 
2.43.0


From 5c51ffe2c30ecabaa8e6e19c01a7c872803f1656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 78/91] fix: sections of a LexicalConfig do not see changes at
 the top level

---
 hftools/file_formats/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index d83ee4e..47e2028 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -178,6 +178,9 @@ class LexicalConfig(LexicalScopeDict):
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
                 self.update(yaml.load(stream, Loader=LexicalLoader))
+            for value in self.values():
+                if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
+                    value.parent = self
         except IOError:
             print("missing config file %r" % self.filename)
 
-- 
2.43.0


From 01153c7b334c08b05f5ed3eee7008af5097fcd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 79/91] fix: SIValue stores the unit of the last value on the
 class

---
 hftools/file_formats/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 47e2028..00ee71b 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -218,7 +218,6 @@ class Config(dict):
 class SIValue(float):
     def __new__(self, value):
         value, unit = convert_si_value(value)
-        self.unit = unit
         x = float.__new__(self, value)
         x.unit = unit
         return x
-- 
2.43.0


From 9cce6233b1b724b5de68ef9e8191bf7693a927b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 80/91] fix: SI values, time intervals, dates and paths of a
 written config are not read back

---
 hftools/file_formats/config.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 00ee71b..19fb59a 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -232,7 +232,7 @@ def convert_or_none(x):
 
 def sivalue_representer(dumper, data):
     if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+        return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))
     else:
         return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
 
@@ -255,18 +255,19 @@ def timeintervall_representer(dumper, data):
     if minutes:
         out.append(u"%s minutes" % minutes)
     if seconds:
-        out.append(u"%s seconds" % seconds)
+        out.append(u"%.6f seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
+    return dumper.represent_scalar(u'!timeintervall',
                                    u" ".join(out))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   u'%s' % (data))
 
 
 def path_representer(dumper, p):
-    return dumper.represent_scalar(u'!str', u'%s' % p)
+    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                           r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
-- 
2.43.0


From cd9fcba2c823c842229ef4ad82dc678c56a58c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 81/91] fix: metres in a config are read as milli

---
 hftools/file_formats/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 19fb59a..5f9c524 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -270,7 +270,7 @@ def path_representer(dumper, p):
     return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
-                          r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
+                          r"[ \t]*(([dcmunpfakMGTPE])??(Hz|V|A|m|s|W|Ohm)?)?$")
 
 reg_percent_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                                r"[ \t]*(%|ppm|ppb)$")
-- 
2.43.0


From b8ecf3ec8872eec07c51d5b00fe19b5dfc5de0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 82/91] fix: LexicalScopeList is represented as a mapping

---
 hftools/file_formats/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 5f9c524..ae33343 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -419,7 +419,7 @@ def lexical_scope_dict_representer(dumper, data):
 
 
 def lexical_scope_list_representer(dumper, data):
-    return dumper.represent_mapping(u'tag:yaml.org,2002:seq', data)
+    return dumper.represent_sequence(u'tag:yaml.org,2002:seq', data)
 
 
 StandardDumper.add_representer(SIValue, sivalue_representer)
-- 
2.43.0


From e84f2b36020483dfe4d3ccb849206e62f26d8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:13 +0000
Subject: [PATCH 83/91] fix: copy of MergedDicts loses its scope

---
 hftools/file_formats/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index ae33343..d3dcf0a 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -120,6 +120,7 @@ class MergedDicts(object):
     def copy(self):
         m = MergedDicts()
         m.dicts = self.dicts[:]
+        m.parent = self.parent
         return m
 
     def __contains__(self, key):
-- 
2.43.0


From eaf7605f49f6c47f841074c8557d104e4b20dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:23 +0000
Subject: [PATCH 84/91] fix: merge_blocks puts samples of differing blocks
 under the first block's axes

---
 hftools/file_formats/merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f8ffabc..e19f05a 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -184,9 +184,15 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             partials = get_partials(b)
             v.append(b[vname])
         if v:
+            if any(x.dims != v[0].dims for x in v):
+                msg = "Can not merge %r, its dimensions differ between blocks"
+                raise HFToolsHyperCubeError(msg % vname)
             k = tuple(partials.keys())
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
+                if len(v) != ri[0].data.shape[0]:
+                    msg = "Can not merge %r, it is missing in some blocks"
+                    raise HFToolsHyperCubeError(msg % vname)
             else:
                 ri = tuple()
             try:
-- 
2.43.0


From f583c13dd9e079af9163b97f9506fc5a4203b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:23 +0000
Subject: [PATCH 85/91] fix: hyper misplaces samples when points are repeated
 and missing, loses comments

---
 hftools/dataset/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 6fb709f..9809cb6 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -28,6 +28,7 @@ from hftools.dataset.arrayobj import hfarray, ismatrix,\
     remove_rep, _hfarray
 from hftools.dataset.dim import DimBase, DimSweep, DimRep,\
     DimMatrix_i, DimMatrix_j, DiagAxis
+from hftools.core.exceptions import HFToolsHyperCubeError
 from hftools.utils import warn, stable_uniq
 from hftools.dataset.helper import guess_unit_from_varname
 from hftools.py3compat import cast_unicode, cast_str, string_types, PY3
@@ -689,6 +690,7 @@ class DataBlock(object):
             replacedim = self.ivardata[replacedim]
         out = DataBlock()
         out.blockname = self.blockname
+        out.comments = self.comments
         dims = []
         sortdata = []
         for x in dimnames:
@@ -703,6 +705,10 @@ class DataBlock(object):
             sortdata.append([values.index(value) for value in self[x]])
         dims = tuple(dims)
         dims_shape = tuple(len(x.data) for x in dims)
+        npoints = len(sortdata[0])
+        if not (len(set(zip(*sortdata))) == npoints == np.prod(dims_shape)):
+            msg = "%r do not fill a hypercube" % (tuple(dimnames),)
+            raise HFToolsHyperCubeError(msg)
 
         sortdata.append(range(len(sortdata[0])))
 
-- 
2.43.0


From f64106ecdc4726376f619121ccddef0a757af8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:34 +0000
Subject: [PATCH 86/91] fix: merging MDIF blocks drops the block name and hides
 differing variables or axes

---
 hftools/file_formats/mdif.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index ccfcb20..a86dbf3 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -26,6 +26,7 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
+from hftools.core.exceptions import HFToolsHyperCubeError
 from hftools.utils import glob
 from hftools.file_formats.common import Comments,\
     format_complex_header, format_elem
@@ -341,7 +342,12 @@ def simple_merge_blocks(blocks):
         return blocks[0]
     ri = DimRep("INDEX", len(blocks))
     out = DataBlock()
-    #import pdb;pdb.set_trace()
+    out.blockname = blocks[0].blockname
+    for b in blocks[1:]:
+        if (set(b.vardata) != set(blocks[0].vardata) or
+                any(b[k].dims != blocks[0][k].dims for k in b.vardata)):
+            raise HFToolsHyperCubeError("Can not merge blocks with different "
+                                        "variables or dimensions")
     for k in blocks[0].vardata:
         out[k] = hfarray([b[k] for b in blocks],
                          dims=(ri,) + blocks[0][k].dims)
-- 
2.43.0


From 316044f69a4964e69cb8bd1d5a6eed8cf70ef202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:55 +0000
Subject: [PATCH 87/91] fix: reading with merge=False raises AttributeError

---
 hftools/file_formats/readbase.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index a86569f..0bde89f 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -294,9 +294,13 @@ class ReadFileFormat(object):
                 if multiple_files:
                     #res["FILEINDEX"] = DimPartial("FILEINDEX", [idx])
                     fname = py3.cast_unicode(fname)
-                    if "FILENAME" not in res:
-                        res["FILENAME"] = hfarray(fname)
-                objs.append(res)
+                    for b in (res if isinstance(res, list) else [res]):
+                        if "FILENAME" not in b:
+                            b["FILENAME"] = hfarray(fname)
+                if isinstance(res, list):
+                    objs.extend(res)
+                else:
+                    objs.append(res)
         if multiple_files:
             res = obj._merge(objs)
         else:
@@ -326,6 +330,11 @@ class ReadFileFormat(object):
             if "FILEINDEX" not in blocks:
                 blocks["FILEINDEX"] = DimPartial("FILEINDEX",
                                                  [self.file_index])
+        elif isinstance(blocks, list):
+            for b in blocks:
+                if "FILEINDEX" not in b:
+                    b["FILEINDEX"] = DimPartial("FILEINDEX",
+                                                [self.file_index])
         else:
             for b in blocks.values():
                 if isinstance(b, (list, tuple)):
-- 
2.43.0


From 1de9f3d4e5ce935a3a1abbdf5260d5332dfdc4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:56 +0000
Subject: [PATCH 88/91] fix: read_mdif ignores merge=False and guess_unit=False

---
 hftools/file_formats/mdif.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index a86dbf3..8c80977 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -122,11 +122,10 @@ class ReadMDIFFileFormat(ReadFileFormat):
                   merge=True, verbose=False, multiple_files=True,
                   blockname=None, **kw):
 
-        if multiple_files:
-            merge = False
         obj = cls(make_complex=make_complex, property_to_vars=property_to_vars,
                   guess_unit=guess_unit, normalize=normalize,
-                  make_matrix=make_matrix, merge=merge, verbose=verbose, **kw)
+                  make_matrix=make_matrix,
+                  merge=merge and not multiple_files, verbose=verbose, **kw)
         obj.filename = filename
 
         if multiple_files:
@@ -148,11 +147,12 @@ class ReadMDIFFileFormat(ReadFileFormat):
                         v["FILENAME"] = hfarray(fname)
                         objs.setdefault(k, []).append(v)
 
-        if multiple_files:
+        if multiple_files and merge:
             res = {}
             for k, v in objs.items():
                 res[k] = simple_merge_blocks(v)
-                res[k].guess_units()
+                if guess_unit:
+                    res[k].guess_units()
         else:
             res = objs
 
-- 
2.43.0


From e5871ffaa275f24d8092efc6bbfc55aee251d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:56 +0000
Subject: [PATCH 89/91] fix: read_mdif does not accept a list of files

---
 hftools/file_formats/mdif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 8c80977..a765b79 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -128,7 +128,11 @@ class ReadMDIFFileFormat(ReadFileFormat):
                   merge=merge and not multiple_files, verbose=verbose, **kw)
         obj.filename = filename
 
-        if multiple_files:
+        if multiple_files and isinstance(filename, (list, tuple)):
+            filenames = []
+            for f in filename:
+                filenames.extend(glob(f))
+        elif multiple_files:
             filenames = glob(filename)
         else:
             filenames = [filename]
-- 
2.43.0


From 2110447731eeb165be5e2e43a9c317db4b5eaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:00 +0000
Subject: [PATCH 90/91] fix: BCircle(0, g1, g2) draws the mirrored piece of the
 real axis

---
 hftools/plotting/smith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index e7952b8..456e3a8 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -214,8 +214,8 @@ def BCircle(b, g1=None, g2=None):
         if g1 is None or g2 is None:
             return MyLine(-1, 0, 1, 0)
         else:
-            x1 = (z2gamma(g1) + 0j).real
-            x2 = (z2gamma(g2) + 0j).real
+            x1 = (y2gamma(g1) + 0j).real
+            x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
     if b >= 0:
         branch = 90
-- 
2.43.0


From 5fd12b3f03a2ae300cbfb258c1a243fbcd8f83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:00 +0000
Subject: [PATCH 91/91] fix: a comment with a unit and no number raises

---
 hftools/dataset/comments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 07273f6..74fc2a5 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -141,7 +141,10 @@ def process_comment(comment):
             except ValueError:
                 pass
         else:
-            value = convert([convert_with_unit], unit, value)
+            try:
+                value = convert([convert_with_unit], unit, value)
+            except ValueError:
+                pass
         out[varname] = value
     return out
 
-- 
2.43.0

