From 840b97676dac90a8e37e70851a4b7da0562d8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:18 +0000
Subject: [PATCH 01/61] fix: selection with elitism turned off (elitism=None)
 no longer crashes

---
 src/sigmaepsilon/math/optimize/bga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/bga.py b/src/sigmaepsilon/math/optimize/bga.py
index 10b5fe6..d873255 100644
--- a/src/sigmaepsilon/math/optimize/bga.py
+++ b/src/sigmaepsilon/math/optimize/bga.py
@@ -185,7 +185,7 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
                 "but only the default case (both None) is currently supported."
             )
         winners, others = self.divide(fitness)
-        winners = winners.tolist()
+        winners = list(winners)
         while len(winners) < int(self.nPop / 2):
             candidates = np.random.choice(others, 3, replace=False)
             argsort = np.argsort([fitness[ID] for ID in candidates])
-- 
2.43.0


From c6054599e55c3988fa0b91cd5a61f57b87cff1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:18 +0000
Subject: [PATCH 02/61] fix: a pool of exactly two parents yields its one pair
 (populations of 4)

---
 src/sigmaepsilon/math/optimize/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index e58f7eb..9378cf8 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -597,13 +597,13 @@ class GeneticAlgorithm:
         assert n % 2 == 0, "'n' must be a multiple of 2"
         pool = np.full(n, True)
         nPool = n
-        while nPool > 2:
+        while nPool > 0:
             where = np.argwhere(pool == True).flatten()
-            nPool = len(where)
             pair = np.random.choice(where, 2, replace=False)
             parent1 = genotypes[pair[0]]
             parent2 = genotypes[pair[1]]
             pool[pair] = False
+            nPool -= 2
             yield parent1, parent2
 
     @abstractmethod
-- 
2.43.0


From d76c6142f0a7303cd096cc5980345ef7dbf7bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:18 +0000
Subject: [PATCH 03/61] fix: an odd number of elites above half the population
 no longer breaks populate

---
 src/sigmaepsilon/math/optimize/bga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/bga.py b/src/sigmaepsilon/math/optimize/bga.py
index d873255..7ab047b 100644
--- a/src/sigmaepsilon/math/optimize/bga.py
+++ b/src/sigmaepsilon/math/optimize/bga.py
@@ -98,12 +98,12 @@ class BinaryGeneticAlgorithm(GeneticAlgorithm):
 
         if nParent < nPop:
             offspring = []
-            g = self.random_parents_generator(genotypes)
+            g = self.random_parents_generator(genotypes[: nParent - nParent % 2])
             try:
                 while (len(offspring) + nParent) < nPop:
                     parent1, parent2 = next(g)
                     offspring.extend(self.crossover(parent1, parent2))
-                genotypes = np.vstack([genotypes, offspring])
+                genotypes = np.vstack([genotypes, offspring])[:nPop]
             except Exception:  # pragma: no cover
                 raise RuntimeError
 
-- 
2.43.0


From 06e61cf538531d9a78352878c3fe08be82558c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:18 +0000
Subject: [PATCH 04/61] fix: a generation whose evaluation failed is retried
 and still meets the champion

---
 src/sigmaepsilon/math/optimize/ga.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 9378cf8..cc21610 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -3,6 +3,7 @@ from typing import Iterable, Callable, Tuple, Generator
 from types import NoneType
 from numbers import Number
 import operator
+from itertools import chain
 from enum import Enum, unique
 
 import numpy as np
@@ -395,8 +396,13 @@ class GeneticAlgorithm:
         genotypes.
         """
         for _ in range(cycles):
-            next(self._evolver)
-            candidate: Genom = self.best_candidate()
+            genotypes = next(self._evolver)
+            try:
+                candidate: Genom = self.best_candidate()
+            except Exception:
+                # the evaluation failed, this generation is still due next time
+                self._evolver = chain([genotypes], self._evolver)
+                raise
             self._celebrate(candidate)
         return self.genotypes
 
-- 
2.43.0


From cce3e7ad3db4d699d9038bd32fe8cd8cf1115fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:18 +0000
Subject: [PATCH 05/61] fix: a recycled solve that succeeds no longer carries
 the error message of an earlier one

---
 src/sigmaepsilon/math/optimize/ga.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index cc21610..977b2bb 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -435,6 +435,7 @@ class GeneticAlgorithm:
 
         finished = False
         self._status = GeneticAlgorithm.Status.INITIALIZED
+        self._state.message = ""
 
         try:
             while not finished:
-- 
2.43.0


From b284e6db3baa8ad143af73d783d88e045b04566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:21 +0000
Subject: [PATCH 06/61] fix: refused hyper-parameters leave the genetic
 algorithm unchanged

---
 src/sigmaepsilon/math/optimize/ga.py | 33 ++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 977b2bb..2a9e7f4 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -345,6 +345,25 @@ class GeneticAlgorithm:
         minimize: bool, Optional
             If True, the objective function is minimized. Default is False.
         """
+        # validate first, so that refused values leave the object untouched
+        elitism = kwargs.get("elitism", self.elitism)
+        maxiter = kwargs["maxiter"] if "maxiter" in kwargs else self.maxiter
+        miniter = kwargs["miniter"] if "miniter" in kwargs else self.miniter
+
+        if isinstance(elitism, (int, float)):
+            if elitism <= 0:
+                raise ValueError("'elitism' must be greater than 0")
+
+            if elitism > 1:
+                if not isinstance(elitism, int):
+                    raise ValueError("'elitism' must be an integer if greater than 1")
+
+                if elitism >= self.nPop:
+                    raise ValueError("'elitism' must be less than 'nPop'")
+
+        if miniter > maxiter:
+            raise ValueError("'maxiter' must be greater than 'miniter'")
+
         if "p_c" in kwargs:
             self.p_c = kwargs["p_c"]
         if "p_m" in kwargs:
@@ -360,20 +379,6 @@ class GeneticAlgorithm:
         if "minimize" in kwargs:
             self._minimize = kwargs["minimize"]
 
-        if isinstance(self.elitism, (int, float)):
-            if self.elitism <= 0:
-                raise ValueError("'elitism' must be greater than 0")
-
-            if self.elitism > 1:
-                if not isinstance(self.elitism, int):
-                    raise ValueError("'elitism' must be an integer if greater than 1")
-
-                if self.elitism >= self.nPop:
-                    raise ValueError("'elitism' must be less than 'nPop'")
-
-        if self.miniter > self.maxiter:
-            raise ValueError("'maxiter' must be greater than 'miniter'")
-
         self._celebrate_op = operator.lt if self._minimize else operator.gt
 
         return self
-- 
2.43.0


From 0ca45d42a444246d74e4932a48b2408bd784160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:24 +0000
Subject: [PATCH 07/61] fix: a failing update of a frame leaves the frame and
 all of its tensors unchanged

---
 src/sigmaepsilon/math/linalg/frame.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 399d3a9..accd06d 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -303,8 +303,10 @@ class ReferenceFrame(FrameLike):
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
-                for v in self._weakrefs.values():
-                    arr = v.show(dcm=dcm)
+                # transform everything first, then commit: all or nothing
+                tensors = list(self._weakrefs.values())
+                arrays = [v.show(dcm=dcm) for v in tensors]
+                for v, arr in zip(tensors, arrays):
                     v.array = arr
             self._array = value
         else:
-- 
2.43.0


From 0d3886fbb8acf712f641e6393867b0a76a7ed84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:24 +0000
Subject: [PATCH 08/61] fix: a failing in-place operation that changes the type
 of a frame does not detach its tensors

---
 src/sigmaepsilon/math/linalg/frame.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index accd06d..f958901 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -39,11 +39,14 @@ def inplace_binary(
     new_axes = np.zeros_like(axes)
     bop(axes, other, out=(new_axes,))
     if rtype:
-        result = rtype(axes)
+        result = rtype(new_axes)
         tensors = list(obj._weakrefs.values())
-        for t in tensors:
-            t.frame = result
-        result.axes = new_axes
+        arrays = [t.show(result) for t in tensors]
+        for t, arr in zip(tensors, arrays):
+            obj._unregister_tensorial_(t)
+            t.array = arr
+            t.array.frame = result
+            result._register_tensorial_(t)
     else:
         obj.axes = new_axes
         result = obj
-- 
2.43.0


From 16a70de291e9c9ae5ccd660f266d951bee2a0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:24 +0000
Subject: [PATCH 09/61] fix: a frame owns its axes instead of sharing the
 buffer of the array it was given

---
 src/sigmaepsilon/math/linalg/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index f958901..97d4b84 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -296,7 +296,7 @@ class ReferenceFrame(FrameLike):
         Sets the array of the frame.
         """
         if isinstance(value, np.ndarray):
-            buf = value
+            buf = np.array(value, dtype=float, order="C")
         else:
             if not issequence(value):
                 raise TypeError("'value' must be some kind of iterable")
-- 
2.43.0


From fec1ccec71610b4e918586fe9714663fbb19ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:24 +0000
Subject: [PATCH 10/61] fix: array methods of a frame or tensor see the current
 components, not those at creation

---
 src/sigmaepsilon/math/linalg/frame.py | 1 +
 src/sigmaepsilon/math/linalg/meta.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 97d4b84..4a56d78 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -312,6 +312,7 @@ class ReferenceFrame(FrameLike):
                 for v, arr in zip(tensors, arrays):
                     v.array = arr
             self._array = value
+            self.wrap(value)
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index d7228fb..82a194a 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -460,6 +460,7 @@ class TensorLike(ArrayWrapper):
         indices = data_indices + tensor_indices[::-1]
         if inplace:
             self._array = np.transpose(self.array, indices)
+            self.wrap(self._array)
             return self
         else:
             f = self.frame
-- 
2.43.0


From 9747fda0ff6b1416e49d5e50c4fd005f84a8fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:24 +0000
Subject: [PATCH 11/61] fix: copies of a frame do not share its registered
 tensors, and item assignment updates them

---
 src/sigmaepsilon/math/linalg/meta.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 82a194a..fdefb0e 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -231,6 +231,17 @@ class FrameLike(ArrayWrapper):
         super().__init__(*args, **kwargs)
         self._weakrefs = weakref.WeakValueDictionary()
 
+    def __copy__(self) -> "FrameLike":
+        return self.copy(name=self.name)
+
+    def __deepcopy__(self, memo) -> "FrameLike":
+        return self.copy(deep=True, name=self.name)
+
+    def __setitem__(self, key, value):
+        axes = np.array(self._array)
+        axes[key] = value
+        self.axes = axes
+
     @abstractmethod
     def dcm(self) -> ndarray: ...
 
-- 
2.43.0


From d8567f6497925961196cc03ea7d9fed972a15968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:24 +0000
Subject: [PATCH 12/61] fix: a tensor that cannot be represented in a new frame
 stays registered to its old one

---
 src/sigmaepsilon/math/linalg/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index fdefb0e..d6cabf9 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -435,8 +435,9 @@ class TensorLike(ArrayWrapper):
             raise TypeError(f"Value must be a {ndarray} or a {FrameLike} instance")
 
         array = self.show(f)
-        self.array.frame._unregister_tensorial_(self)
+        old = self.frame
         self.array = array
+        old._unregister_tensorial_(self)
         self.array.frame = f
         f._register_tensorial_(self)
 
-- 
2.43.0


From 7d9b72756e80b603b2f2a1f23b9434d4b42dbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:24 +0000
Subject: [PATCH 13/61] fix: in-place subtraction of a number from a tensor
 subtracts it

---
 src/sigmaepsilon/math/linalg/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 3e29bef..5145b9f 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -101,7 +101,7 @@ class AbstractTensor(TensorLike):
 
     def __isub__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array += other
+            self.array -= other
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-- 
2.43.0


From 658c246a0dd34861163d8a32fed20f028b8e53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:06 +0000
Subject: [PATCH 14/61] fix: copies of vectors and tensors keep their frame

---
 src/sigmaepsilon/math/linalg/tensor.py | 6 +++---
 src/sigmaepsilon/math/linalg/vector.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 6bc6309..56abe23 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy, deepcopy as dcopy
 
 import numpy as np
 from numpy import ndarray
@@ -177,9 +177,9 @@ class Tensor(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return copy(self)
 
     def deepcopy(self, name: str = None) -> "Tensor":
         """
diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 7741607..0b5e857 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -1,4 +1,4 @@
-from copy import deepcopy as dcopy
+from copy import copy, deepcopy as dcopy
 
 from numpy import ndarray
 import numbers
@@ -204,9 +204,9 @@ class Vector(AbstractTensor):
         argument `deepcopy` (default is False).
         """
         if deep:
-            return self.__class__(dcopy(self.array), name=name)
+            return dcopy(self)
         else:
-            return self.__class__(self.array, name=name)
+            return copy(self)
 
     def deepcopy(self, name: str = None) -> "Vector":
         """
-- 
2.43.0


From bca22f7f25f6e3cf101c2dd68b21c41b0aaa9f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:06 +0000
Subject: [PATCH 15/61] fix: the dot product of a vector and a second order
 tensor is x.A in every frame

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 6d0f17e..460a5ae 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -220,7 +220,7 @@ def dot(
             arr = (a.array @ b.show(a.frame.dual()).T).T
             result = b.__class__(arr, frame=a.frame)
         elif ra == 1 and rb == 2:
-            arr = (a.array.T @ b.show(a.frame.dual()).T).T
+            arr = a.dual().array @ b.show(a.frame)
             result = a.__class__(arr, frame=a.frame)
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-- 
2.43.0


From ba14a9692dceeaf215dddbdb72a6657ae21f96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:06 +0000
Subject: [PATCH 16/61] fix: the cross product of two vectors is correct in
 skew and scaled frames

---
 src/sigmaepsilon/math/linalg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 460a5ae..054c1ba 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -315,8 +315,9 @@ def cross(
         ra, rb = a.rank, b.rank
         result = None
         if ra == 1 and rb == 1:
-            arr = np.cross(a.array, b.show(a.frame), axis=0)
-            result = a.__class__(arr, frame=a.frame)
+            # component-wise rule, only valid in the ambient frame
+            result = a.__class__(np.cross(a.show(), b.show(), axis=0))
+            result.frame = a.frame
         elif ra == 2 and rb == 1:
             arr = np.cross(a.show(), b.show(), axis=0)
             result = a.__class__(arr)
-- 
2.43.0


From d5a1df310798711310203ddf1158b932445d9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 17/61] fix: concurrent approximations with one MLSApproximator
 do not mix up their neighbours

---
 src/sigmaepsilon/math/approx/mls.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 23c3524..543cfc2 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -158,9 +158,14 @@ class MLSApproximator:
         """
         self._factors = val
 
-    def _calc_factors_and_neighbours(self, X_S: ndarray, X_T: ndarray) -> None:
-        self.neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
-        self.factors = np.ones_like(self.neighbours) / self.neighbours.shape[-1]
+    def _calc_factors_and_neighbours(
+        self, X_S: ndarray, X_T: ndarray
+    ) -> tuple[ndarray, ndarray]:
+        neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
+        factors = np.ones_like(neighbours) / neighbours.shape[-1]
+        self.neighbours = neighbours
+        self.factors = factors
+        return neighbours, factors
 
     @staticmethod
     def _get_neighbours(
@@ -187,9 +192,7 @@ class MLSApproximator:
         """
         X_S = atleast2d(self.X_S, back=True)
         X_T = atleast2d(X_T, back=True)
-        self._calc_factors_and_neighbours(X_S, X_T)
-        neighbours = self.neighbours
-        factors = self.factors
+        neighbours, factors = self._calc_factors_and_neighbours(X_S, X_T)
 
         data = self.Y_S
         if len(self.Y_S.shape) == 1:
-- 
2.43.0


From 895806ad18555ade080b3e9db2647d327ef3a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 18/61] fix: a moving least squares approximation does not move
 the weight function it was given

---
 src/sigmaepsilon/math/approx/ls.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/ls.py b/src/sigmaepsilon/math/approx/ls.py
index 69dc37b..ed0745f 100644
--- a/src/sigmaepsilon/math/approx/ls.py
+++ b/src/sigmaepsilon/math/approx/ls.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Callable, Iterable
 
 import numpy as np
@@ -36,8 +37,9 @@ def moving_least_squares(
                     raise TypeError(
                         f"Invalid input type. Expected a numpy array or an iterable, got {type(x)}"
                     )
-        w.core = x
-        f = weighted_least_squares(points, values, w=w, **kwargs)
+        w_x = copy(w)
+        w_x.core = x
+        f = weighted_least_squares(points, values, w=w_x, **kwargs)
         return f(x)
 
     return inner
-- 
2.43.0


From b67d58cbbb076bb58ec45a474ea2f78ab9dc2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 19/61] fix: the arguments of the built-in test functions are
 always (x, y), whatever the hash seed

---
 src/sigmaepsilon/math/function/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/function/functions.py b/src/sigmaepsilon/math/function/functions.py
index e392f48..d8fa075 100644
--- a/src/sigmaepsilon/math/function/functions.py
+++ b/src/sigmaepsilon/math/function/functions.py
@@ -25,7 +25,7 @@ def Rosenbrock(a: float = 1, b: float = 100) -> TestMinFunction2D:
     """
     str_expr = "(a-x)**2 + b*(y-x**2)**2"
     expr = substitute(sy.sympify(str_expr), [a, b], ["a", "b"])
-    return TestMinFunction2D(**symbolize(expr=expr), optimums=[(1.0, 1.0)])
+    return TestMinFunction2D(**symbolize(expr=expr, variables=["x", "y"]), optimums=[(1.0, 1.0)])
 
 
 def Himmelblau() -> TestMinFunction2D:
@@ -39,7 +39,7 @@ def Himmelblau() -> TestMinFunction2D:
     """
     str_expr = "(x**2 + y - 11)**2 + (x + y**2 - 7)**2"
     return TestMinFunction2D(
-        **symbolize(str_expr=str_expr),
+        **symbolize(str_expr=str_expr, variables=["x", "y"]),
         optimums=[
             (3.0, 2.0),
             (-2.805118, 3.131312),
@@ -68,7 +68,7 @@ def GoldsteinPrice() -> TestMinFunction2D:
         "(1+(x+y+1)**2 * (19-14*x+3*x**2-14*y+6*x*y+3*y**2))"
         "*(30+(2*x-3*y)**2 * (18-32*x+12*x**2+48*y-36*x*y+27*y**2))"
     )
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(0.0, -1.0)])
+    return TestMinFunction2D(**symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(0.0, -1.0)])
 
 
 def Beale() -> TestMinFunction2D:
@@ -89,7 +89,7 @@ def Beale() -> TestMinFunction2D:
     str_expr = (
         "(1.5 - x + x*y)**2 + (2.25 - x + x*y**2)**2 " "+ (2.625 - x + x*y**3)**2"
     )
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(3.0, 0.5)])
+    return TestMinFunction2D(**symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(3.0, 0.5)])
 
 
 def Matyas() -> TestMinFunction2D:
@@ -101,7 +101,7 @@ def Matyas() -> TestMinFunction2D:
     One global minimum : f(0., 0.) = 0.
     """
     str_expr = "0.26*(x**2 + y**2) - 0.48*x*y"
-    return TestMinFunction2D(**symbolize(str_expr=str_expr), optimums=[(0.0, 0.0)])
+    return TestMinFunction2D(**symbolize(str_expr=str_expr, variables=["x", "y"]), optimums=[(0.0, 0.0)])
 
 
 if __name__ == "__main__":
-- 
2.43.0


From dbc196c9258af3820520701488a1c11ae0fcbbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 20/61] fix: a linear program reports the objective at its
 solution whatever the order of the objective's variables

---
 src/sigmaepsilon/math/optimize/lp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index a40c1f6..35ee4a9 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -325,6 +325,7 @@ class LinearProgrammingProblem:
         _kwargs.update(kwargs)
         _kwargs["method"] = method
         res = linprog(c, **_kwargs)
-        if res.success:
-            res.fun = self.obj(res.x)
+        if res.x is not None:
+            values = dict(zip(self.variables, res.x))
+            res.fun = self.obj([values[v] for v in self.obj.variables])
         return res
-- 
2.43.0


From c79e941ccb19d2a5bbf092c67ddbbb74bc5fd1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 21/61] fix: substitution without variables follows the
 declared order, not the hash seed

---
 src/sigmaepsilon/math/function/function.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index 0feb7e2..b2d67bf 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -356,7 +356,12 @@ class Function(MetaFunction):
         if not self.is_symbolic:
             raise TypeError("This is exclusive to symbolic functions.")
 
-        expr = substitute(self.expr, values, variables, as_string=self.from_str)
+        expr = substitute(
+            self.expr,
+            values,
+            self.variables if variables is None else variables,
+            as_string=self.from_str,
+        )
         kwargs = self._sympy_to_func(expr=expr, variables=variables)
 
         if not inplace:
-- 
2.43.0


From 32f799cbd2055d5047ceb6732018fb080d9d603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:39 +0000
Subject: [PATCH 22/61] fix: k_nearest_neighbours does not write into the
 caller's query_kwargs

---
 src/sigmaepsilon/math/knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 234184d..cfedf22 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -88,7 +88,7 @@ def k_nearest_neighbours(
 
     """
     tree_kwargs = {} if tree_kwargs is None else tree_kwargs
-    query_kwargs = {} if query_kwargs is None else query_kwargs
+    query_kwargs = {} if query_kwargs is None else dict(query_kwargs)
     if backend == "scipy":
         tree = KD_scipy(X, leafsize=leaf_size, **tree_kwargs)
         max_distance = np.inf if max_distance is None else max_distance
-- 
2.43.0


From ad65868e96abdd615664ce0fb572f2bf49260421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:45 +0000
Subject: [PATCH 23/61] fix: moving least squares approximation of integer data
 is not truncated to zero

---
 src/sigmaepsilon/math/approx/mls.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 543cfc2..8ae0068 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -198,6 +198,9 @@ class MLSApproximator:
         if len(self.Y_S.shape) == 1:
             data = atleast2d(data, back=True)
 
+        if not np.issubdtype(data.dtype, np.inexact):
+            data = data.astype(float)
+
         if len(data.shape) == 2:
             res = _approximate_2d(data, neighbours, factors)
         else:
-- 
2.43.0


From 24e79f65df38f2c054d15776b734b6e2b2091477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:45 +0000
Subject: [PATCH 24/61] fix: moving least squares approximation with one
 neighbour, or fewer points than neighbours

---
 src/sigmaepsilon/math/approx/mls.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/mls.py b/src/sigmaepsilon/math/approx/mls.py
index 8ae0068..fcd08c1 100644
--- a/src/sigmaepsilon/math/approx/mls.py
+++ b/src/sigmaepsilon/math/approx/mls.py
@@ -162,7 +162,9 @@ class MLSApproximator:
         self, X_S: ndarray, X_T: ndarray
     ) -> tuple[ndarray, ndarray]:
         neighbours = self._get_neighbours(X_S, X_T, **self._knn_config)
-        factors = np.ones_like(neighbours) / neighbours.shape[-1]
+        found = neighbours < len(X_S)  # KNN marks missing neighbours with len(X_S)
+        factors = found / found.sum(axis=-1, keepdims=True)
+        neighbours = np.where(found, neighbours, 0)
         self.neighbours = neighbours
         self.factors = factors
         return neighbours, factors
@@ -177,9 +179,10 @@ class MLSApproximator:
         knn_backend: str = "scipy",
     ) -> ndarray:
         k = 4 if not k else k
-        return k_nearest_neighbours(
+        neighbours = k_nearest_neighbours(
             X_S, X_T, k=k, max_distance=max_distance, backend=knn_backend
         )
+        return neighbours.reshape(len(X_T), -1)
 
     def approximate(self, X_T: ndarray) -> ndarray:
         """
-- 
2.43.0


From d2549df692c4701bb3dbfc21e6480b34155d8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:45 +0000
Subject: [PATCH 25/61] fix: a nearest neighbour search honours max_distance
 and the extra query arguments

---
 src/sigmaepsilon/math/knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index cfedf22..49d431e 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -101,7 +101,7 @@ def k_nearest_neighbours(
             )
             d, i = tree.query(Y, k=k, **query_kwargs)
         else:
-            d, i = tree.query(Y, k=k, workers=workers)
+            d, i = tree.query(Y, k=k, workers=workers, **query_kwargs)
     elif backend == "sklearn":  # pragma: no cover
         if not __has_sklearn__:
             raise ImportError("'sklearn' must be installed for this!")
-- 
2.43.0


From dc38287618d81e7b4b0a8092380ddd3be406fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 26/61] fix: a nearest neighbour search without sampling points
 queries the points of the tree

---
 src/sigmaepsilon/math/knn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sigmaepsilon/math/knn.py b/src/sigmaepsilon/math/knn.py
index 49d431e..9266883 100644
--- a/src/sigmaepsilon/math/knn.py
+++ b/src/sigmaepsilon/math/knn.py
@@ -87,6 +87,7 @@ def k_nearest_neighbours(
         In the abscence of a usable backend.
 
     """
+    Y = X if Y is None else Y
     tree_kwargs = {} if tree_kwargs is None else tree_kwargs
     query_kwargs = {} if query_kwargs is None else dict(query_kwargs)
     if backend == "scipy":
-- 
2.43.0


From 62a14b77d4b3d11108041c2b0972223361e912de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 27/61] fix: linear functions keep their irrational
 coefficients (pi*x had the coefficient 0)

---
 src/sigmaepsilon/math/function/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index b2d67bf..c1dfb79 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -306,8 +306,8 @@ class Function(MetaFunction):
 
         try:
             d = OrderedDict({x: 0 for x in self.variables})
-            expr = self.expr.simplify()
-            d.update(expr.as_coefficients_dict())
+            expr = self.expr.simplify().expand()
+            d.update(expr.as_coefficients_dict(*self.variables))
             if not normalize:
                 return d
             else:
-- 
2.43.0


From 2a97c6c3d1ed7cf4ead31b08a336101a8c92d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 28/61] fix: direct solvers do not truncate systems given with
 integer coefficients

---
 src/sigmaepsilon/math/linalg/solve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index 8e0054b..b8e6ca1 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -120,7 +120,7 @@ def linsolve(
                 res = backsub(*fnc(A, B, presc_bool, presc_val), presc_bool, presc_val)
             else:
                 res = backsub(
-                    *fnc(A.copy(), B.copy(), presc_bool, presc_val),
+                    *fnc(A.astype(float), B.astype(float), presc_bool, presc_val),
                     presc_bool,
                     presc_val
                 )
@@ -156,7 +156,7 @@ def reduce(
             if inplace:
                 return fnc(A, B, presc_bool, presc_val)
             else:
-                return fnc(A.copy(), B.copy(), presc_bool, presc_val)
+                return fnc(A.astype(float), B.astype(float), presc_bool, presc_val)
         except Exception:
             raise LinAlgError("The matrix is singular!")
     else:
-- 
2.43.0


From 9bbf38ba92bbb1a6f8d112c8c6312924fe8c0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 29/61] fix: Gauss-Jordan elimination reports a singular matrix
 whose last pivot vanishes

---
 src/sigmaepsilon/math/linalg/solve.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/solve.py b/src/sigmaepsilon/math/linalg/solve.py
index b8e6ca1..b89a793 100644
--- a/src/sigmaepsilon/math/linalg/solve.py
+++ b/src/sigmaepsilon/math/linalg/solve.py
@@ -203,17 +203,16 @@ def _GaussJordan(
                 B[iROW] -= A[iROW, iEQ] * presc_val[iEQ]
                 A[iROW, iEQ] = 0.0
         else:
-            if iEQ < nEQ - 1:
-                pivot = A[iEQ, iEQ]
-                if abs(pivot) < 1e-12:
-                    raise Exception("The matrix is singular!")
-                for iROW in range(iEQ + 1, nEQ):
-                    factor = A[iROW, iEQ] / pivot
-                    if abs(factor) < 1e-12:
-                        continue
-                    for iCOL in range(nEQ):
-                        A[iROW, iCOL] -= factor * A[iEQ, iCOL]
-                    B[iROW] -= factor * B[iEQ]
+            pivot = A[iEQ, iEQ]
+            if abs(pivot) < 1e-12:
+                raise Exception("The matrix is singular!")
+            for iROW in range(iEQ + 1, nEQ):
+                factor = A[iROW, iEQ] / pivot
+                if abs(factor) < 1e-12:
+                    continue
+                for iCOL in range(nEQ):
+                    A[iROW, iCOL] -= factor * A[iEQ, iCOL]
+                B[iROW] -= factor * B[iEQ]
     return A, B
 
 
-- 
2.43.0


From 77015846ca5d2165a17420a0e584df833add5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 30/61] fix: the level structure of a disconnected graph is
 that of the root's component instead of an endless loop

---
 src/sigmaepsilon/math/graph/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/graph/utils.py b/src/sigmaepsilon/math/graph/utils.py
index 7702be0..e61442c 100644
--- a/src/sigmaepsilon/math/graph/utils.py
+++ b/src/sigmaepsilon/math/graph/utils.py
@@ -48,6 +48,8 @@ def rooted_level_structure(adj: csr_matrix, root: int = 0) -> Dict:
         for iN in range(nN):
             if nodes[iN] == 1:
                 levelset[iN] = 0
+        if not np.any(levelset == 1):  # the rest is not connected to the root
+            break
         level += 1
         rls[level] = np.where(levelset == 1)[0]
         nE += len(rls[level])
-- 
2.43.0


From ba8062c556d9332fd11ae0aaabd9c00c324416e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:15 +0000
Subject: [PATCH 31/61] fix: bin centers of integer bin edges are not truncated

---
 src/sigmaepsilon/math/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/hist.py b/src/sigmaepsilon/math/hist.py
index b74a9f2..02d4af9 100644
--- a/src/sigmaepsilon/math/hist.py
+++ b/src/sigmaepsilon/math/hist.py
@@ -17,7 +17,7 @@ def histogram(data, bins, *args, return_edges=False, **kwargs):
 
 @njit(nogil=True, parallel=True, cache=True)
 def bin_centers(bin_edges: np.ndarray):
-    res = np.zeros(bin_edges.shape[0] - 1, dtype=bin_edges.dtype)
+    res = np.zeros(bin_edges.shape[0] - 1, dtype=np.float64)
     for i in prange(res.shape[0]):
         res[i] = (bin_edges[i] + bin_edges[i + 1]) / 2
     return res
-- 
2.43.0


From b88c5bdb3152d56c1e1b2f0f21e7da8eed0b8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:46 +0000
Subject: [PATCH 32/61] fix: counting the columns of a CSR matrix does not read
 past the end of its arrays

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4ab8234..4bc8042 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -460,10 +460,10 @@ def count_cols_csr(indptr: ndarray, indices: ndarray) -> ndarray:
     --------
     :class:`~sigmaepsilon.math.linalg.sparse.csr.csr_matrix`
     """
-    n = len(indptr)
+    n = len(indptr) - 1
     res = np.zeros(n, dtype=indptr.dtype)
     for i in prange(n):
-        res[i] = indices[indptr[i + 1]] - indices[indptr[i]]
+        res[i] = indptr[i + 1] - indptr[i]
     return res
 
 
-- 
2.43.0


From 4f61c095f3123887d2e45189e81f84bca9bac307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:46 +0000
Subject: [PATCH 33/61] fix: mapping integers to another range is not truncated

---
 src/sigmaepsilon/math/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4bc8042..19f8e38 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -519,6 +519,8 @@ def to_range_1d(
                 vals,
             ]
         )
+    if not np.issubdtype(vals.dtype, np.inexact):
+        vals = vals.astype(float)
     source = np.array([0.0, 1.0]) if source is None else np.array(source)
     target = np.array([-1.0, 1.0]) if target is None else np.array(target)
     return _to_range_1d_(vals, source, target)
-- 
2.43.0


From e512549b6ad2a711b1b0e7518993742fccabfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:58 +0000
Subject: [PATCH 34/61] fix: substituting some or all variables of a function
 gives a function of the others

---
 src/sigmaepsilon/math/function/function.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index c1dfb79..fdb881d 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -356,13 +356,12 @@ class Function(MetaFunction):
         if not self.is_symbolic:
             raise TypeError("This is exclusive to symbolic functions.")
 
-        expr = substitute(
-            self.expr,
-            values,
-            self.variables if variables is None else variables,
-            as_string=self.from_str,
-        )
-        kwargs = self._sympy_to_func(expr=expr, variables=variables)
+        variables = self.variables if variables is None else variables
+        expr = substitute(self.expr, values, variables, as_string=self.from_str)
+        # the result is a function of the variables that are left
+        substituted = {str(v) for v, _ in zip(variables, values)}
+        remaining = [v for v in self.variables if str(v) not in substituted]
+        kwargs = self._sympy_to_func(expr=expr, variables=remaining or variables)
 
         if not inplace:
             return Function(None, None, None, **kwargs)
-- 
2.43.0


From b29748cdfe473755686b4b5049583be19b6b8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:17 +0000
Subject: [PATCH 35/61] fix: a linear program honours a constraint given with a
 callable operator, or refuses it, instead of ignoring or flipping it

---
 src/sigmaepsilon/math/function/relation.py | 5 +++--
 src/sigmaepsilon/math/optimize/lp.py       | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/function/relation.py b/src/sigmaepsilon/math/function/relation.py
index 53e5051..6ac8fe0 100644
--- a/src/sigmaepsilon/math/function/relation.py
+++ b/src/sigmaepsilon/math/function/relation.py
@@ -144,7 +144,7 @@ class Relation(Function):
                 self.op = op
             elif isinstance(op, Callable):
                 self.opfunc = op
-                self.op = None
+                self.op = Relations(op_str) if op_str in valid_operators else None
 
         if not op and not has_op_in_input:
             if op_str in valid_operators:
@@ -159,7 +159,8 @@ class Relation(Function):
             self.op = op = Relations(operator)
 
         if op and isinstance(self.op, Relations):
-            self.opfunc = self.op.to_opfunc()
+            if self.opfunc is None:
+                self.opfunc = self.op.to_opfunc()
             self.op_str = self.op.value
 
         super().__init__(*args, **kwargs)
diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index 35ee4a9..c787aa5 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -162,6 +162,9 @@ class LinearProgrammingProblem:
                 if not constraint.is_symbolic:
                     raise ValueError("The constraints must be symbolic!")
 
+                if not isinstance(constraint.op, Relations):
+                    raise ValueError("The operators of the constraints must be known!")
+
                 self.constraints.append(constraint)
                 _variables += constraint.variables
             else:
-- 
2.43.0


From 2d2e7270fe75ffee94b0ff68a2b493874f20086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:17 +0000
Subject: [PATCH 36/61] fix: the optimum of the Rosenbrock function follows its
 parameter a

---
 src/sigmaepsilon/math/function/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/functions.py b/src/sigmaepsilon/math/function/functions.py
index d8fa075..2995f10 100644
--- a/src/sigmaepsilon/math/function/functions.py
+++ b/src/sigmaepsilon/math/function/functions.py
@@ -25,7 +25,7 @@ def Rosenbrock(a: float = 1, b: float = 100) -> TestMinFunction2D:
     """
     str_expr = "(a-x)**2 + b*(y-x**2)**2"
     expr = substitute(sy.sympify(str_expr), [a, b], ["a", "b"])
-    return TestMinFunction2D(**symbolize(expr=expr, variables=["x", "y"]), optimums=[(1.0, 1.0)])
+    return TestMinFunction2D(**symbolize(expr=expr, variables=["x", "y"]), optimums=[(1.0 * a, 1.0 * a**2)])
 
 
 def Himmelblau() -> TestMinFunction2D:
-- 
2.43.0


From 40e3192a69b4daefb9178a1bca64e3732c18a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:19 +0000
Subject: [PATCH 37/61] fix: substitution finds the variables of a function by
 name, also when their symbols carry assumptions

---
 src/sigmaepsilon/math/function/function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index fdb881d..d30d77e 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -357,7 +357,10 @@ class Function(MetaFunction):
             raise TypeError("This is exclusive to symbolic functions.")
 
         variables = self.variables if variables is None else variables
-        expr = substitute(self.expr, values, variables, as_string=self.from_str)
+        # variables are matched by name, whatever their assumptions
+        own = {str(v): v for v in self.variables}
+        variables = [own.get(str(v), v) for v in variables]
+        expr = substitute(self.expr, values, variables)
         # the result is a function of the variables that are left
         substituted = {str(v) for v, _ in zip(variables, values)}
         remaining = [v for v in self.variables if str(v) not in substituted]
-- 
2.43.0


From ff76361194cff9b5fa01139c55ea18cfd7294f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:22 +0000
Subject: [PATCH 38/61] fix: in-place addition of something that is neither a
 number nor a tensor is refused instead of ignored

---
 src/sigmaepsilon/math/linalg/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 5145b9f..f8cc675 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -63,6 +63,8 @@ class AbstractTensor(TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
             self.array += other.show(self.frame)
+        else:
+            raise TypeError("Only scalars and tensors can be added to a tensor.")
         return self
 
     def __add__(self, other) -> TensorLike:
@@ -106,6 +108,8 @@ class AbstractTensor(TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
             self.array -= other.show(self.frame)
+        else:
+            raise TypeError("Only scalars and tensors can be subtracted from a tensor.")
         return self
 
     def __itruediv__(self, other) -> TensorLike:
-- 
2.43.0


From 7756d9d74e38e10067eaa8eb3f606da5562fd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:08 +0000
Subject: [PATCH 39/61] fix: an in-place operation on a tensor that raises a
 floating point error leaves its components unchanged

---
 src/sigmaepsilon/math/linalg/abstract.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index f8cc675..830d97a 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -41,7 +41,9 @@ class AbstractTensor(TensorLike):
     def __imul__(self, other) -> TensorLike:
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
-        self.array *= other
+        arr = np.copy(self.array)
+        arr *= other
+        self.array = arr
         return self
 
     def __mul__(self, other) -> TensorLike:
@@ -58,11 +60,15 @@ class AbstractTensor(TensorLike):
 
     def __iadd__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array += other
+            arr = np.copy(self.array)
+            arr += other
+            self.array = arr
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-            self.array += other.show(self.frame)
+            arr = np.copy(self.array)
+            arr += other.show(self.frame)
+            self.array = arr
         else:
             raise TypeError("Only scalars and tensors can be added to a tensor.")
         return self
@@ -103,11 +109,15 @@ class AbstractTensor(TensorLike):
 
     def __isub__(self, other) -> TensorLike:
         if isinstance(other, numbers.Number):
-            self.array -= other
+            arr = np.copy(self.array)
+            arr -= other
+            self.array = arr
         elif isinstance(other, TensorLike):
             if not self.array.shape == other.array.shape:
                 raise TensorShapeMismatchError
-            self.array -= other.show(self.frame)
+            arr = np.copy(self.array)
+            arr -= other.show(self.frame)
+            self.array = arr
         else:
             raise TypeError("Only scalars and tensors can be subtracted from a tensor.")
         return self
@@ -115,7 +125,9 @@ class AbstractTensor(TensorLike):
     def __itruediv__(self, other) -> TensorLike:
         if not isinstance(other, numbers.Number):
             raise TypeError("The divider must be a scalar.")
-        self.array /= other
+        arr = np.copy(self.array)
+        arr /= other
+        self.array = arr
         return self
 
     def __truediv__(self, other) -> TensorLike:
-- 
2.43.0


From 1a78dcdd4a24b6b14b669067c80f96571d62ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:38 +0000
Subject: [PATCH 40/61] fix: refuse axes that break the regularity of a
 rectangular or cartesian frame

A CartesianFrame accepted arbitrary axes, but kept reporting an identity
Gram matrix and itself as its dual, so vectors moved into it were wrong.
---
 src/sigmaepsilon/math/linalg/frame.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 4a56d78..47af45a 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -303,6 +303,7 @@ class ReferenceFrame(FrameLike):
             buf = np.array(value).astype(float)
         value = self._array_cls_(shape=buf.shape, buffer=buf, dtype=buf.dtype)
         if value.shape == self._array.shape:
+            self._verify_axes(value)
             if self._weakrefs and len(self._weakrefs) > 0:
                 target = ReferenceFrame(value)
                 dcm = self.dcm(target=target)
@@ -316,6 +317,12 @@ class ReferenceFrame(FrameLike):
         else:
             raise ValueError("Mismatch in data dimensinons!")
 
+    def _verify_axes(self, axes: ndarray) -> None:
+        """
+        Raises an exception if the argument would not be a valid value
+        for the axes of a frame of this kind.
+        """
+
     def show(self, target: "ReferenceFrame" = None) -> ndarray:
         """
         Returns the components of the current frame in a target frame.
@@ -676,6 +683,10 @@ class RectangularFrame(ReferenceFrame):
                 self.axes
             ), "This frame is not rectangular, check your input!"
 
+    def _verify_axes(self, axes: ndarray) -> None:
+        if not is_rectangular_frame(axes):
+            raise ValueError("The axes of a rectangular frame must be rectangular.")
+
     @property
     def is_rectangular(self) -> bool:
         """
@@ -772,6 +783,10 @@ class CartesianFrame(RectangularFrame):
                     self.axes
                 ), "This frame is not cartesian, check your input!"
 
+    def _verify_axes(self, axes: ndarray) -> None:
+        if not is_orthonormal_frame(axes):
+            raise ValueError("The axes of a cartesian frame must be orthonormal.")
+
     @property
     def is_rectangular(self) -> bool:
         """
-- 
2.43.0


From e925fbeb2ec71d353ecec4d4aa615422da3b931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:40 +0000
Subject: [PATCH 41/61] fix: the dual of a cartesian frame is a frame of its
 own, like every other dual

---
 src/sigmaepsilon/math/linalg/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index 47af45a..ee8a605 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -818,7 +818,7 @@ class CartesianFrame(RectangularFrame):
         """
         Returns the dual (or reciprocal) frame.
         """
-        return self
+        return self.__class__(self.axes, assume_cartesian=True)
 
     def __imul__(self, other) -> ReferenceFrame | RectangularFrame:
         rtype = RectangularFrame if isinstance(other, (float, int)) else ReferenceFrame
-- 
2.43.0


From c19b8eddd2eee5a8471f5f6fdafa9ad668c85f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:16 +0000
Subject: [PATCH 42/61] fix: Tensor4 transforms components with other than 3
 indices per axis

The kernels are written for 3 indices; for others they read and wrote out
of bounds.
---
 src/sigmaepsilon/math/linalg/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 56abe23..29de1ad 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -277,6 +277,10 @@ class Tensor4(Tensor):
         Returns the components of the transformed numerical tensor, based on
         the provided direction cosine matrix.
         """
+        if self._array.shape[-1] != 3:
+            # the dedicated implementation is for 3 indices per axis only
+            command = "...ai,...bj,...ck,...dl,...ijkl->...abcd"
+            return np.einsum(command, *4 * (dcm,), self._array, optimize="greedy")
         return _tr_tensors4x3(self._array, dcm)
 
 
-- 
2.43.0


From 6a107532ccd888d09b7fe30171203e8e784fcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:17 +0000
Subject: [PATCH 43/61] fix: chopping a frame carries its vectors and tensors
 along, like any other change of the axes

---
 src/sigmaepsilon/math/linalg/meta.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index d6cabf9..c254b0d 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -242,6 +242,12 @@ class FrameLike(ArrayWrapper):
         axes[key] = value
         self.axes = axes
 
+    def chop(self, tol: float = 1e-12) -> "FrameLike":
+        axes = np.array(self._array)
+        axes[np.where(np.abs(axes) < tol)] = 0.0
+        self.axes = axes
+        return self
+
     @abstractmethod
     def dcm(self) -> ndarray: ...
 
-- 
2.43.0


From 8b08add650615352fbeac9e198897cc904d72e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:18 +0000
Subject: [PATCH 44/61] fix: dcm and show of a frame return a matrix of their
 own

Overwriting the returned matrix changed the axes of the frame behind the
back of its vectors and tensors.
---
 src/sigmaepsilon/math/linalg/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index ee8a605..cbfe698 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -389,7 +389,7 @@ class ReferenceFrame(FrameLike):
                 raise NotImplementedError(msg.format(S.shape, T.shape))
         # We only get here if the function is called without arguments.
         # The DCM from the ambient frame to the current frame is returned.
-        return self.axes
+        return self.axes.copy()
 
     def transpose(self, inplace: bool = False) -> "ReferenceFrame":
         """
-- 
2.43.0


From da60878391a75884caab05ac182e7365dd003642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 45/61] fix: equal rows of an integer and a real table are
 compared without truncating the difference

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 19f8e38..3b96e9a 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -404,7 +404,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def indices_of_equal_rows_njit(x: ndarray, y: ndarray, tol: float = 1e-12):
-    R = np.zeros((x.shape[0], y.shape[0]), dtype=x.dtype)
+    R = np.zeros((x.shape[0], y.shape[0]), dtype=np.float64)
     for i in prange(R.shape[0]):
         for j in prange(R.shape[1]):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
@@ -418,7 +418,7 @@ def indices_of_equal_rows_square_njit(x: ndarray, y: ndarray, tol=1e-12):
         n = nx
     else:
         n = ny
-    R = np.zeros((n, n), dtype=x.dtype)
+    R = np.zeros((n, n), dtype=np.float64)
     for i in prange(n):
         for j in prange(n):
             R[i, j] = np.sum(np.abs(x[i] - y[j]))
-- 
2.43.0


From 82194b0d1d5d1784b713da65f5a0dd4cff6d9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 46/61] fix: equal rows of integer tables are searched among
 all pairs also if the tables have the same length

---
 src/sigmaepsilon/math/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 3b96e9a..4e39e19 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -390,11 +390,7 @@ def indices_of_equal_rows(x: ndarray, y: ndarray, tol=1e-12):
     square = nX == nY
     integer = isintegerarray(x) and isintegerarray(y)
     if integer:
-        if square:
-            inds = np.flatnonzero((x == y).all(1))
-            return inds, np.copy(inds)
-        else:
-            return indices_of_equal_rows_njit(x, y, 0)
+        return indices_of_equal_rows_njit(x, y, 0)
     else:
         if square:
             return indices_of_equal_rows_square_njit(x, y, tol)
-- 
2.43.0


From 020a8ab995191a056248618c9a0cbd4568f4d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 47/61] fix: tiling integers with real steps is not truncated

---
 src/sigmaepsilon/math/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sigmaepsilon/math/utils.py b/src/sigmaepsilon/math/utils.py
index 4e39e19..8fabed0 100644
--- a/src/sigmaepsilon/math/utils.py
+++ b/src/sigmaepsilon/math/utils.py
@@ -366,7 +366,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
            [[ 2, -2]]])
 
     """
-    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=a.dtype)
+    res = np.zeros((N, a.shape[0], a.shape[1]), dtype=(a + da).dtype)
     for i in prange(N):
         res[i, :, :] = a + i * da
     return res
@@ -375,7 +375,7 @@ def tile(a: ndarray, da: ndarray, N: int = 1) -> ndarray:
 @njit(nogil=True, parallel=True, cache=__cache)
 def tile1d(a: ndarray, da: ndarray, N=1) -> ndarray:
     M = a.shape[0]
-    res = np.zeros(N * M, dtype=a.dtype)
+    res = np.zeros(N * M, dtype=(a + da).dtype)
     for i in prange(N):
         res[i * M : (i + 1) * M] = a + i * da
     return res
-- 
2.43.0


From 935ebb93e8eef16911a6a03bdb9645b64c57d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:30 +0000
Subject: [PATCH 48/61] fix: the inverse of a 2x2 matrix of integers is not
 truncated to zeros

---
 src/sigmaepsilon/math/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 054c1ba..52c2d72 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -721,7 +721,7 @@ def det2x2(A, res):
 
 @njit(nogil=True, cache=__cache)
 def inv2x2(A) -> ndarray:
-    res = np.zeros_like(A)
+    res = np.zeros(A.shape, dtype=(A / 1).dtype)
     d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
     res[0, 0] = A[1, 1] / d
     res[1, 1] = A[0, 0] / d
-- 
2.43.0


From 4e9183db0d36160162d1c10254cec0d167f4a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:30 +0000
Subject: [PATCH 49/61] fix: points between coincident end points are those
 points instead of NaN

---
 src/sigmaepsilon/math/linalg/utils.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 52c2d72..8c07314 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -658,12 +658,10 @@ def inv_sym_3x3(m: Matrix, as_adj_det=False) -> Matrix:
 def vpath(p1: ndarray, p2: ndarray, n: int) -> ndarray:
     nD = len(p1)
     dist = p2 - p1
-    length = np.linalg.norm(dist)
-    s = np.linspace(0, length, n)
-    res = np.zeros((n, nD), dtype=p1.dtype)
-    d = dist / length
+    s = np.linspace(0, 1, n)
+    res = np.zeros((n, nD), dtype=(dist / 1).dtype)
     for i in prange(n):
-        res[i] = p1 + s[i] * d
+        res[i] = p1 + s[i] * dist
     return res
 
 
@@ -858,11 +856,8 @@ def norm2d(A) -> ndarray:
 
 @njit(nogil=True, parallel=True, cache=__cache)
 def _linspace(p0: ndarray, p1: ndarray, N):
-    s = p1 - p0
-    L = np.linalg.norm(s)
-    n = s / L
-    djac = L / (N - 1)
-    step = n * djac
+    djac = 1.0 / (N - 1)
+    step = (p1 - p0) * djac
     res = np.zeros((N, p0.shape[0]))
     res[0] = p0
     for i in prange(1, N - 1):
-- 
2.43.0


From e989f8e3aeef90fb03455c420eb05d6e17dead0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:22 +0000
Subject: [PATCH 50/61] fix: a function that is identically zero is linear

---
 src/sigmaepsilon/math/function/function.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sigmaepsilon/math/function/function.py b/src/sigmaepsilon/math/function/function.py
index d30d77e..7de3a50 100644
--- a/src/sigmaepsilon/math/function/function.py
+++ b/src/sigmaepsilon/math/function/function.py
@@ -234,9 +234,7 @@ class Function(MetaFunction):
         Returns `True` if the function is at most linear in all of its variables.
         """
         if self.is_symbolic:
-            return all(
-                np.array([degree(self.expr, v) for v in self.variables], dtype=int) <= 1
-            )
+            return all(bool(degree(self.expr, v) <= 1) for v in self.variables)
         else:
             return self.f2 is None
 
-- 
2.43.0


From 184807e09c3e4eb091c79ac945d20a1bb2169027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:45 +0000
Subject: [PATCH 51/61] fix: a linear program refuses nonlinear objectives and
 constraints instead of dropping their nonlinear terms

---
 src/sigmaepsilon/math/optimize/lp.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/optimize/lp.py b/src/sigmaepsilon/math/optimize/lp.py
index c787aa5..071303d 100644
--- a/src/sigmaepsilon/math/optimize/lp.py
+++ b/src/sigmaepsilon/math/optimize/lp.py
@@ -2,7 +2,7 @@ from typing import Iterable, Sequence
 
 import numpy as np
 from numpy import ndarray
-from sympy import Symbol
+from sympy import Poly, PolynomialError, Symbol
 from scipy.optimize import linprog, OptimizeResult
 from scipy import sparse
 
@@ -152,6 +152,9 @@ class LinearProgrammingProblem:
             if not obj.is_symbolic:
                 raise ValueError("The objective function must be symbolic!")
 
+            if not self._is_linear(obj):
+                raise ValueError("The objective function must be linear!")
+
             self.obj = obj
             _variables += self.obj.variables
         else:
@@ -162,6 +165,9 @@ class LinearProgrammingProblem:
                 if not constraint.is_symbolic:
                     raise ValueError("The constraints must be symbolic!")
 
+                if not self._is_linear(constraint):
+                    raise ValueError("The constraints must be linear!")
+
                 if not isinstance(constraint.op, Relations):
                     raise ValueError("The operators of the constraints must be known!")
 
@@ -181,6 +187,18 @@ class LinearProgrammingProblem:
 
             self._variables = variables
 
+    @staticmethod
+    def _is_linear(f: Function) -> bool:
+        """
+        Returns `True` if the expression of `f` is a polynomial of its variables
+        of degree at most one.
+        """
+        try:
+            symbols = {*f.variables, *f.expr.free_symbols}
+            return bool(Poly(f.expr, *symbols).total_degree() <= 1)
+        except PolynomialError:
+            return False
+
     @property
     def variables(self) -> Iterable[Symbol]:
         """
-- 
2.43.0


From 22eeca917febe75def711fb053fa6e4216f67297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:44 +0000
Subject: [PATCH 52/61] fix: components of a frame in a skew target frame are
 those of its axes, not of the dual

---
 src/sigmaepsilon/math/linalg/frame.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/frame.py b/src/sigmaepsilon/math/linalg/frame.py
index cbfe698..e58deff 100644
--- a/src/sigmaepsilon/math/linalg/frame.py
+++ b/src/sigmaepsilon/math/linalg/frame.py
@@ -332,7 +332,9 @@ class ReferenceFrame(FrameLike):
         -------
         numpy.ndarray
         """
-        return self.dcm(source=target)
+        if target is None:
+            return self.dcm()
+        return transpose_axes(self.dcm(target=target))
 
     def dcm(
         self, *, target: "ReferenceFrame" = None, source: "ReferenceFrame" = None
-- 
2.43.0


From 9276e297ea82b8cfe04485d7553ae8ccc67e0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:44 +0000
Subject: [PATCH 53/61] fix: dual and oriented versions of stacks of vectors
 treat every vector on its own

---
 src/sigmaepsilon/math/linalg/vector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/vector.py b/src/sigmaepsilon/math/linalg/vector.py
index 0b5e857..49883b8 100644
--- a/src/sigmaepsilon/math/linalg/vector.py
+++ b/src/sigmaepsilon/math/linalg/vector.py
@@ -114,7 +114,7 @@ class Vector(AbstractTensor):
         """
         # NOTE Strictly this should be self.frame.Gram().T @ self.array,
         # but since the Gram matrix is symmetric, it's cheaper like this
-        a = self.frame.Gram() @ self.array
+        a = show_vector(self.frame.Gram(), self.array)
         return self.__class__(a, frame=self.frame.dual())
 
     def show(self, target: Frame = None, *, dcm: ndarray = None) -> ndarray:
@@ -164,7 +164,7 @@ class Vector(AbstractTensor):
         """
         if not isinstance(dcm, ndarray):
             fcls = self.__class__._frame_cls_
-            dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
+            dcm = fcls.eye(dim=self._array.shape[-1]).orient_new(*args, **kwargs).dcm()
             # self.array = dcm.T @ self._array
             self.array = show_vector(dcm.T, self.array)
             # self.array = np.linalg.inv(dcm) @ self._array
@@ -192,8 +192,8 @@ class Vector(AbstractTensor):
         :func:`orient`
         """
         fcls = self.__class__._frame_cls_
-        dcm = fcls.eye(dim=len(self)).orient_new(*args, **kwargs).dcm()
-        array = dcm.T @ self._array
+        dcm = fcls.eye(dim=self._array.shape[-1]).orient_new(*args, **kwargs).dcm()
+        array = show_vector(dcm.T, self.array)
         # FIXME check if inversion is necessary or not
         # array = np.linalg.inv(dcm) @ self._array
         return Vector(array, frame=self.frame)
-- 
2.43.0


From e94d0849298c77cfdf547864c78860f4cbf1fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:44 +0000
Subject: [PATCH 54/61] fix: is_bulk answers for tensors without the bulk flag

---
 src/sigmaepsilon/math/linalg/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index c254b0d..dbe3c0b 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -502,7 +502,7 @@ class TensorLike(ArrayWrapper):
         if self._bulk:
             return True
         else:
-            not self.rank == len(self.array.shape)
+            return not self.rank == len(self.array.shape)
 
 
 ArrayLike = Union[ArrayWrapper, ndarray, Array]
-- 
2.43.0


From 8d06b6727ca759e38af8de26b7186231c25858fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:45 +0000
Subject: [PATCH 55/61] fix: the default frame of a stack of tensors has the
 dimension of its tensors

---
 src/sigmaepsilon/math/linalg/meta.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index dbe3c0b..826637c 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -330,10 +330,7 @@ class TensorLike(ArrayWrapper):
                 )
 
             arr = args[0]
-            if bulk:
-                frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[1])
-            else:
-                frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[0])
+            frame = _new_and_init_(self.__class__._frame_cls_, dim=arr.shape[-1])
             cls_params["frame"] = frame
 
         kwargs["cls_params"] = cls_params
-- 
2.43.0


From e2f28ba50707347bda37bc77f0607a03e583e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 56/61] fix: copies and results of bulk tensors stay bulk
 instead of being refused

---
 src/sigmaepsilon/math/linalg/abstract.py | 10 +++++-----
 src/sigmaepsilon/math/linalg/meta.py     | 11 +++++++++--
 src/sigmaepsilon/math/linalg/tensor.py   |  4 ++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/abstract.py b/src/sigmaepsilon/math/linalg/abstract.py
index 830d97a..2340d24 100644
--- a/src/sigmaepsilon/math/linalg/abstract.py
+++ b/src/sigmaepsilon/math/linalg/abstract.py
@@ -50,7 +50,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array * other
-        return self.__class__(arr, frame=self.frame)
+        return self._new_like(arr, self.frame)
 
     def __imatmul__(self, other) -> TensorLike:
         raise LinalgInvalidTensorOperationError("Use a dot product.")
@@ -81,7 +81,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array + other.show(self.frame)
-            return cls(arr, frame=frame)
+            return self._new_like(arr, frame)
         else:
             raise TypeError(
                 (
@@ -98,7 +98,7 @@ class AbstractTensor(TensorLike):
             fcls = cls._frame_cls_
             frame = _new_and_init_(fcls, deepcopy(self.frame.axes))
             arr = self.array - other.show(self.frame)
-            return cls(arr, frame=frame)
+            return self._new_like(arr, frame)
         else:
             raise TypeError(
                 (
@@ -134,7 +134,7 @@ class AbstractTensor(TensorLike):
         if not isinstance(other, numbers.Number):
             raise TypeError("The multiplier must be a scalar.")
         arr = self.array / other
-        return self.__class__(arr, frame=self.frame)
+        return self._new_like(arr, self.frame)
 
     def __ipow__(self, other) -> TensorLike:
         raise NotImplementedError("This operation is not implemented yet.")
@@ -171,7 +171,7 @@ def negative_implementation(method, *args, **kwargs):
         raise LinalgOperationInputError(msg)
     obj = args[0]
     arr = getattr(np.negative, method)(obj._array, **kwargs)
-    return obj.__class__(arr, frame=obj.frame)
+    return obj._new_like(arr, obj.frame)
 
 
 @implements(np.dot)
diff --git a/src/sigmaepsilon/math/linalg/meta.py b/src/sigmaepsilon/math/linalg/meta.py
index 826637c..3b5a7f3 100644
--- a/src/sigmaepsilon/math/linalg/meta.py
+++ b/src/sigmaepsilon/math/linalg/meta.py
@@ -372,7 +372,14 @@ class TensorLike(ArrayWrapper):
         if is_deep:
             memo[id(self.array)] = arr
 
-        return cls(arr, frame=frame)
+        return self._new_like(arr, frame)
+
+    def _new_like(self, arr: ndarray, frame: FrameLike) -> "TensorLike":
+        """
+        Returns a tensor of the same kind, single or bulk as this one.
+        """
+        kwargs = {"bulk": True} if self._bulk else {}
+        return self.__class__(arr, frame=frame, **kwargs)
 
     @classmethod
     def _from_any_input(cls, *args, **kwargs) -> "TensorLike":
@@ -480,7 +487,7 @@ class TensorLike(ArrayWrapper):
         else:
             f = self.frame
             frame = f.__class__(np.copy(f.axes))
-            return self.__class__(np.transpose(self.array, indices), frame=frame)
+            return self._new_like(np.transpose(self.array, indices), frame)
 
     @abstractmethod
     def show(self) -> Array: ...
diff --git a/src/sigmaepsilon/math/linalg/tensor.py b/src/sigmaepsilon/math/linalg/tensor.py
index 29de1ad..0504938 100644
--- a/src/sigmaepsilon/math/linalg/tensor.py
+++ b/src/sigmaepsilon/math/linalg/tensor.py
@@ -88,7 +88,7 @@ class Tensor(AbstractTensor):
         Returns the tensor described in the dual (or reciprocal) frame.
         """
         a = self.transform_components(self.frame.Gram())
-        return self.__class__(a, frame=self.frame.dual())
+        return self._new_like(a, self.frame.dual())
 
     def transform_components(self, Q: ndarray) -> ndarray:
         """
@@ -169,7 +169,7 @@ class Tensor(AbstractTensor):
         fcls: Frame = self.__class__._frame_cls_
         dcm = fcls.eye(dim=self.frame.shape[-1]).orient_new(*args, **kwargs).dcm()
         array = self.transform_components(dcm.T)
-        return self.__class__(array, frame=self.frame)
+        return self._new_like(array, self.frame)
 
     def copy(self, deep: bool = False, name: str = None) -> "Tensor":
         """
-- 
2.43.0


From ecd9d482e73df9374e72da3d374ef015a7ab99b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:40 +0000
Subject: [PATCH 57/61] fix: dot and cross products of stacks of vectors and
 tensors are taken item by item

---
 src/sigmaepsilon/math/linalg/utils.py | 35 ++++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 8c07314..7e46594 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -137,6 +137,14 @@ def permutation_tensor(dim: int = 3) -> ndarray:
     return arr
 
 
+def _stack_params(arr: ndarray, rank: int) -> dict:
+    """
+    Returns the parameters to create a single tensor of the given rank or a
+    stack of them, depending on the components.
+    """
+    return {"bulk": True} if len(arr.shape) > rank else {}
+
+
 def dot(
     a: Union[TensorLike, ArrayWrapper],
     b: Union[TensorLike, ArrayWrapper],
@@ -215,16 +223,17 @@ def dot(
                 raise LinalgOperationInputError(
                     "Parameter 'out' is not allowed with tensors."
                 )
-            return np.dot(a.show(), b.show())
+            return np.einsum("...i,...i->...", a.show(), b.show())
         elif ra == 2 and rb == 1:
-            arr = (a.array @ b.show(a.frame.dual()).T).T
-            result = b.__class__(arr, frame=a.frame)
+            arr = np.einsum("...ij,...j->...i", a.array, b.show(a.frame.dual()))
+            result = b.__class__(arr, frame=a.frame, **_stack_params(arr, 1))
         elif ra == 1 and rb == 2:
-            arr = a.dual().array @ b.show(a.frame)
-            result = a.__class__(arr, frame=a.frame)
+            arr = np.einsum("...i,...ij->...j", a.dual().array, b.show(a.frame))
+            result = a.__class__(arr, frame=a.frame, **_stack_params(arr, 1))
         elif ra == 2 and rb == 2:
             g = a.frame.Gram()
-            result = a.__class__(a.array @ g @ b.show(a.frame), frame=a.frame)
+            arr = a.array @ g @ b.show(a.frame)
+            result = a.__class__(arr, frame=a.frame, **_stack_params(arr, 2))
         else:
             if not axes:
                 msg = "The parameter 'axes' is required for tensor contraction of general tensors."
@@ -237,7 +246,8 @@ def dot(
             ib[ax_b] = ic
             command = "..." + "".join(ia) + "," + "..." + "".join(ib)
             arr = np.einsum(command, a.show(), b.show(), optimize="greedy")
-            result = a.__class__._from_any_input(arr)
+            params = _stack_params(arr, ra + rb - 2)
+            result = a.__class__._from_any_input(arr, **params)
         if frame:
             result.frame = frame
         return result
@@ -316,14 +326,15 @@ def cross(
         result = None
         if ra == 1 and rb == 1:
             # component-wise rule, only valid in the ambient frame
-            result = a.__class__(np.cross(a.show(), b.show(), axis=0))
+            arr = np.cross(a.show(), b.show())
+            result = a.__class__(arr, **_stack_params(arr, 1))
             result.frame = a.frame
         elif ra == 2 and rb == 1:
-            arr = np.cross(a.show(), b.show(), axis=0)
-            result = a.__class__(arr)
+            arr = np.cross(a.show(), b.show()[..., None], axis=-2)
+            result = a.__class__(arr, **_stack_params(arr, 2))
         elif ra == 1 and rb == 2:
-            arr = np.cross(a.show(), b.show(), axis=0)
-            result = b.__class__(arr)
+            arr = np.cross(a.show()[..., None], b.show(), axis=-2)
+            result = b.__class__(arr, **_stack_params(arr, 2))
         else:
             msg = (
                 "The cross product is not implemented",
-- 
2.43.0


From 377dfbacc6fa8a5097d4892b08798c877828bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:40 +0000
Subject: [PATCH 58/61] fix: det2x2 and det3x3 write their result instead of
 returning uninitialised memory

---
 src/sigmaepsilon/math/linalg/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sigmaepsilon/math/linalg/utils.py b/src/sigmaepsilon/math/linalg/utils.py
index 7e46594..f2e6227 100644
--- a/src/sigmaepsilon/math/linalg/utils.py
+++ b/src/sigmaepsilon/math/linalg/utils.py
@@ -711,9 +711,9 @@ def ATBAw(A: ndarray, B: ndarray, w: float = 1.0) -> ndarray:
     return w * (A.T @ B @ A)
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det3x3(A, res):
-    res = (
+    res[0] = (
         A[0, 0] * A[1, 1] * A[2, 2]
         - A[0, 0] * A[1, 2] * A[2, 1]
         - A[0, 1] * A[1, 0] * A[2, 2]
@@ -723,9 +723,9 @@ def det3x3(A, res):
     )
 
 
-@guv(["(f8[:, :], f8)"], "(n, n) -> ()", nopython=True, cache=__cache)
+@guv(["(f8[:, :], f8[:])"], "(n, n) -> ()", nopython=True, cache=__cache)
 def det2x2(A, res):
-    res = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
+    res[0] = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
 
 
 @njit(nogil=True, cache=__cache)
-- 
2.43.0


From f235b6725b8f36f715f8b6ccbef0e1d70d5604bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:40 +0000
Subject: [PATCH 59/61] fix: a CSR matrix made without a shape takes its
 columns from the column indices

---
 src/sigmaepsilon/math/linalg/sparse/csr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sigmaepsilon/math/linalg/sparse/csr.py b/src/sigmaepsilon/math/linalg/sparse/csr.py
index 5f568e0..ada315b 100644
--- a/src/sigmaepsilon/math/linalg/sparse/csr.py
+++ b/src/sigmaepsilon/math/linalg/sparse/csr.py
@@ -149,7 +149,8 @@ class csr_matrix:
             self.indices = np.array(indices).astype(np.int32)
             self.indptr = np.array(indptr).astype(np.int32)
             if shape is None:
-                shape = get_shape_sp(indptr)
+                # the number of columns follows from the column indices
+                shape = (len(self.indptr) - 1, int(np.max(self.indices, initial=-1)) + 1)
             self.shape = shape
 
     def to_numpy(self) -> np.ndarray:
-- 
2.43.0


From f882a4fe5246dcae061c8b4a97010a7c3add1ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:40 +0000
Subject: [PATCH 60/61] fix: second derivatives of the cubic weight function do
 not vanish level with its core

---
 src/sigmaepsilon/math/approx/functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sigmaepsilon/math/approx/functions.py b/src/sigmaepsilon/math/approx/functions.py
index 887bd6a..ad81d80 100644
--- a/src/sigmaepsilon/math/approx/functions.py
+++ b/src/sigmaepsilon/math/approx/functions.py
@@ -191,11 +191,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
             dwXdX = (-8 * rX + 12 * rX**2) * drdX
-            dwXdXX = (-8 + 24 * rX) * drdX * drdX
+            dwXdXX = (-8 + 24 * rX) / dmX**2
         elif rX > 0.5 and rX <= 1:
             wX = 4 / 3 - 4 * rX + 4 * rX**2 - (4 / 3) * rX**3
             dwXdX = (-4 + 8 * rX - 4 * rX**2) * drdX
-            dwXdXX = (8 - 8 * rX) * drdX * drdX
+            dwXdXX = (8 - 8 * rX) / dmX**2
         else:
             wX = 0
             dwXdX = 0
@@ -229,11 +229,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rX <= 0.5:
             wX = 2 / 3 - 4 * rX**2 + 4 * rX**3
             dwXdX = (-8 * rX + 12 * rX**2) * drdX
-            dwXdXX = (-8 + 24 * rX) * drdX * drdX
+            dwXdXX = (-8 + 24 * rX) / dmX**2
         elif rX > 0.5 and rX <= 1:
             wX = 4 / 3 - 4 * rX + 4 * rX**2 - (4 / 3) * rX**3
             dwXdX = (-4 + 8 * rX - 4 * rX**2) * drdX
-            dwXdXX = (8 - 8 * rX) * drdX * drdX
+            dwXdXX = (8 - 8 * rX) / dmX**2
         else:
             wX = 0
             dwXdX = 0
@@ -242,11 +242,11 @@ class CubicWeightFunction(MLSWeightFunction):
         if rY <= 0.5:
             wY = 2 / 3 - 4 * rY**2 + 4 * rY**3
             dwYdY = (-8 * rY + 12 * rY**2) * drdY
-            dwYdYY = (-8 + 24 * rY) * drdY * drdY
+            dwYdYY = (-8 + 24 * rY) / dmY**2
         elif rY > 0.5 and rY <= 1:
             wY = 4 / 3 - 4 * rY + 4 * rY**2 - (4 / 3) * rY**3
             dwYdY = (-4 + 8 * rY - 4 * rY**2) * drdY
-            dwYdYY = (8 - 8 * rY) * drdY * drdY
+            dwYdYY = (8 - 8 * rY) / dmY**2
         else:
             wY = 0
             dwYdY = 0
-- 
2.43.0


From 3da4ce7f6b808e72818ba5956f7e883e9fa81e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:40 +0000
Subject: [PATCH 61/61] fix: an error while evaluating a population set by the
 user does not end the evolution

---
 src/sigmaepsilon/math/optimize/ga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigmaepsilon/math/optimize/ga.py b/src/sigmaepsilon/math/optimize/ga.py
index 2a9e7f4..f2dc108 100644
--- a/src/sigmaepsilon/math/optimize/ga.py
+++ b/src/sigmaepsilon/math/optimize/ga.py
@@ -401,6 +401,8 @@ class GeneticAlgorithm:
         genotypes.
         """
         for _ in range(cycles):
+            # if it is yet to be evaluated, an error must not end the generator
+            self.fitness
             genotypes = next(self._evolver)
             try:
                 candidate: Genom = self.best_candidate()
-- 
2.43.0

