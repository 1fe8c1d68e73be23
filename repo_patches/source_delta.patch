From b2d34bad42c2306c2b5eb2ef561de6742e0d056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 01/48] fix: TauConst.hat must not use np.complex

The alias was removed in numpy 1.24, so evaluating any basis augmented with
TauConst in Matsubara frequency raised an AttributeError.
---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 71353cb..922259b 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -247,7 +247,7 @@ class TauConst(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        return np.sqrt(self._beta) * (n == 0).astype(np.complex)
+        return np.sqrt(self._beta) * (n == 0).astype(complex)
 
 
 class TauLinear(AbstractAugmentation):
-- 
2.43.0


From 9514aa962c31a57ebb2832d6317af95a43a74cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 02/48] fix: AugmentedBasis.statistics returns instead of
 raising

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 922259b..c6328d1 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -69,7 +69,7 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def statistics(self):
-        raise self._basis.statistics
+        return self._basis.statistics
 
     def __getitem__(self, index):
         stop = basis._slice_to_size(index)
-- 
2.43.0


From 45a6517194280c458c4bc367485cfbdcdf65b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 03/48] fix: AugmentedTauFunction.xmax returned the lower
 boundary

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index c6328d1..893e109 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -180,7 +180,7 @@ class AugmentedTauFunction(_AugmentedFunction):
 
     @property
     def xmax(self):
-        return self._fbasis.xmin
+        return self._fbasis.xmax
 
     def deriv(self, n=1):
         """Get polynomial for the n'th derivative"""
-- 
2.43.0


From c8e2b50f635f942140303ab08f6fe0e1105373f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 04/48] fix: AugmentedTauFunction.deriv passes list of
 augmentations

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 893e109..8727c50 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -186,7 +186,7 @@ class AugmentedTauFunction(_AugmentedFunction):
         """Get polynomial for the n'th derivative"""
         dbasis = self._fbasis.deriv(n)
         daug = [faug_l.deriv(n) for faug_l in self._faug]
-        return AugmentedTauFunction(dbasis, *daug)
+        return AugmentedTauFunction(dbasis, daug)
 
 
 class AugmentedMatsubaraFunction(_AugmentedFunction):
-- 
2.43.0


From 8e2be36c5f56bac767d833c05997067b84e45617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 05/48] fix: derivative of TauLinear is not truncated for
 integer tau

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 8727c50..e140850 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -273,7 +273,7 @@ class TauLinear(AbstractAugmentation):
             return self
         elif n == 1:
             c = self._norm * 2/self._beta
-            return lambda tau: np.full_like(tau, c)
+            return lambda tau: np.full_like(tau, c, dtype=float)
         else:
             return lambda tau: np.zeros_like(tau)
 
-- 
2.43.0


From 2e83afc7f8c5b2011d1120d12b99a83a52c3c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 06/48] fix: TauLinear.hat accepts scalar frequencies

np.reciprocal(..., out=) requires an array as output argument.
---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index e140850..7ebcc14 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -279,7 +279,7 @@ class TauLinear(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        inv_w = np.pi/self._beta * n
+        inv_w = np.asarray(np.pi/self._beta * n)
         inv_w = np.reciprocal(inv_w, out=inv_w, where=n.astype(bool))
         return self._norm * 2/1j * inv_w
 
-- 
2.43.0


From 12b5d05cb46b2ab78a5b1a7bbeb5813fa138f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 07/48] fix: AugmentedBasis.significance has one value per
 basis function

---
 src/sparse_ir/augment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 7ebcc14..f509ecd 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -88,7 +88,8 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def significance(self):
-        return self._basis.significance
+        # the augmentation can never be discarded without incurring an error
+        return np.hstack([np.ones(self._naug), self._basis.significance])
 
     @property
     def accuracy(self):
-- 
2.43.0


From 781d693e0b7d2b634ce302ea6cb304db173a5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 08/48] fix: slicing and rescaling a basis respects its current
 size

basis[:], basis[:-1] and basis[:n] with n > size returned bases larger than
the original one, since the slice was resolved against the full SVE rather
than the basis.  Conversely, bases truncated below the accuracy of the SVE
lost functions on rescale(), since the SVE was truncated again.
---
 src/sparse_ir/augment.py |  4 ++--
 src/sparse_ir/basis.py   | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index f509ecd..407e33a 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -72,7 +72,7 @@ class AugmentedBasis(abstract.AbstractBasis):
         return self._basis.statistics
 
     def __getitem__(self, index):
-        stop = basis._slice_to_size(index)
+        stop = basis._slice_to_size(index, self.size)
         if stop <= self._naug:
             raise ValueError("Cannot truncate to only augmentation")
         return AugmentedBasis(self._basis[:stop - self._naug],
@@ -162,7 +162,7 @@ class _AugmentedFunction:
     def __getitem__(self, l):
         # TODO make this more general
         if isinstance(l, slice):
-            stop = basis._slice_to_size(l)
+            stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
             return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 0a4a223..ec4588d 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -92,8 +92,9 @@ class FiniteTempBasis(abstract.AbstractBasis):
 
     def __getitem__(self, index):
         return FiniteTempBasis(
-                    self._statistics, self._beta, self._wmax, None,
-                    max_size=_slice_to_size(index), kernel=self._kernel,
+                    self._statistics, self._beta, self._wmax, 0,
+                    max_size=_slice_to_size(index, self.size),
+                    kernel=self._kernel,
                     sve_result=self._sve_result)
 
     @property
@@ -204,7 +205,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         since ``lambda_ == beta * wmax`` stays constant.
         """
         new_wmax = self._kernel.lambda_ / new_beta
-        return FiniteTempBasis(self._statistics, new_beta, new_wmax, None,
+        return FiniteTempBasis(self._statistics, new_beta, new_wmax, 0,
                                max_size=self.size, kernel=self._kernel,
                                sve_result=self._sve_result)
 
@@ -329,11 +330,12 @@ def _get_kernel(statistics, lambda_, kernel):
     return kernel
 
 
-def _slice_to_size(index):
+def _slice_to_size(index, size):
     if not isinstance(index, slice):
         raise ValueError("argument must be a slice (`n:m`)")
     if index.start is not None and index.start != 0:
         raise ValueError("slice must start at zero")
     if index.step is not None and index.step != 1:
         raise ValueError("slice must step in ones")
-    return index.stop
+    _, stop, _ = index.indices(size)
+    return stop
-- 
2.43.0


From f96832705ffcfec40684a5edd2352dca775b8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 09/48] fix: slices of augmented functions retain their type

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 407e33a..599772b 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -165,7 +165,7 @@ class _AugmentedFunction:
             stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
-            return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
+            return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
             l = int(l)
             if l < self._naug:
-- 
2.43.0


From 69c5cea42e84842ecf149b432411335f4bfa0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 10/48] fix: RegularizedBoseKernel accepts scalar and integer
 arguments

np.divide(..., out=) requires an array of floating point type as output.
---
 src/sparse_ir/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 9624dad..375c6a5 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -278,14 +278,14 @@ class RegularizedBoseKernel(AbstractKernel):
         # lower one for v < 0 to avoid overflow.
         abs_v = np.abs(v)
         enum = np.exp(-abs_v * np.where(v >= 0, u_plus, u_minus))
-        dtype = v.dtype
+        dtype = enum.dtype
 
         # The expression ``v / (exp(v) - 1)`` is tricky to evaluate: firstly,
         # it has a singularity at v=0, which can be cured by treating that case
         # separately.  Secondly, the denominator loses precision around 0 since
         # exp(v) = 1 + v + ..., which can be avoided using expm1(...)
         not_tiny = abs_v >= 1e-200
-        denom = -np.ones_like(abs_v)
+        denom = np.full_like(enum, -1)
         np.divide(abs_v, np.expm1(-abs_v, where=not_tiny),
                   out=denom, where=not_tiny)
         return -1/dtype.type(self.lambda_) * enum * denom
-- 
2.43.0


From 2cc4f4cdc322fb8bbe4e4aed1076e60ec3d7501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 11/48] fix: reduced kernels can be called without x_plus and
 for scalars

x_plus is documented as optional, but omitting it raised a TypeError.
---
 src/sparse_ir/kernel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 375c6a5..f7959ff 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -386,7 +386,7 @@ class ReducedKernel(AbstractKernel):
         # The reduced kernel is defined only over the interval [0, 1], which
         # means we must add one to get the x_plus for the inner kernels.  We
         # can compute this as 1 + x, since we are away from -1.
-        x_plus = 1 + x_plus
+        x_plus = 1 + (x if x_plus is None else x_plus)
 
         K_plus = self.inner(x, y, x_plus, x_minus)
         K_minus = self.inner(x, -y, x_plus, x_minus)
@@ -446,7 +446,8 @@ class _LogisticKernelOdd(ReducedKernel):
         K(x, y) == -sinh(Λ/2 * x * y) / cosh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        x, y = _check_domain(self, x, y)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
@@ -469,7 +470,8 @@ class _RegularizedBoseKernelOdd(ReducedKernel):
             K(x, y) = -y * sinh(Λ/2 * x * y) / sinh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        x, y = _check_domain(self, x, y)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
-- 
2.43.0


From df9167f8b741b1e457f73c1f463a6f331f4cb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 12/48] fix: Gauss rules of order one and two can be
 constructed

There, the Newton iteration hits the roots exactly, which was not recognised
as convergence, and the warning issued had an invalid format string.
---
 src/sparse_ir/_gauss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index 44113d0..5b9ad24 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -142,12 +142,12 @@ def rule_from_recurrence(alpha, beta, a, b):
         # check convergence without relying on ATOL
         currdiff = np.abs(diff).max()
         #print(currdiff)
-        if not (2 * currdiff <= prevdiff):
+        if currdiff == 0 or not (2 * currdiff <= prevdiff):
             break
         prevdiff = currdiff
     else:
-        warnings.warn("Newton iteration did not converge, error = {.2g}"
-                      .format(currdiff))
+        warnings.warn("Newton iteration did not converge, error = {:.2g}"
+                      .format(float(currdiff)))
 
     # Now we know that the weights are proportional to the following:
     _, dp1, p0, _ = _polyvalderiv(x, alpha, beta)
-- 
2.43.0


From 5f18af60e30a477659189401d3c8379294c95f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 13/48] fix: MatsubaraSampling retains the order of the
 sampling points

The points were silently sorted, thus evaluate/fit(..., points=x) did not
relate the n-th value to x[n] as documented.
---
 src/sparse_ir/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 52b274d..39f5a30 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -174,8 +174,7 @@ class MatsubaraSampling(AbstractSampling):
             sampling_points = _util.check_reduced_matsubara(sampling_points)
             if sampling_points.ndim != 1:
                 raise ValueError("sampling points must be vector")
-            sampling_points = np.sort(sampling_points)
-            if positive_only and not sampling_points[0] >= 0:
+            if positive_only and not (sampling_points >= 0).all():
                 raise ValueError("invalid negative sampling frequencies")
 
         matrix = basis.uhat(sampling_points).T
-- 
2.43.0


From 8ef5ed6944b48187db046c8f67fb9037457752a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 14/48] fix: bosonic DLR pole at zero has finite zero-frequency
 value

uhat(0) was NaN for a pole at exactly zero, which is always present in the
default set of poles if the size of the basis is odd.
---
 src/sparse_ir/dlr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 91e4d65..cacc902 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -142,8 +142,11 @@ class MatsubaraPoles:
         if self._statistics == 'F':
             return 1 /(iv[None, :] - self._poles[:, None])
         else:
-            return np.tanh(0.5 * self._beta * self._poles)[:, None]\
-                /(iv[None, :] - self._poles[:, None])
+            # tanh(x)/x has a removable singularity for a pole at zero
+            numer = np.tanh(0.5 * self._beta * self._poles)[:, None]
+            denom = iv[None, :] - self._poles[:, None]
+            result = np.full(denom.shape, -0.5 * self._beta, complex)
+            return np.divide(numer, denom, out=result, where=denom != 0)
 
 
 class TauPoles:
-- 
2.43.0


From 3a97568c98880b02424ab1cfb59b54b683ebcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 15/48] fix: TauPoles with only a pole at zero is not NaN

---
 src/sparse_ir/dlr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index cacc902..bada0ed 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -154,7 +154,7 @@ class TauPoles:
         self._beta = beta
         self._statistics = statistics
         self._poles = np.array(poles)
-        self._wmax = np.abs(poles).max()
+        self._wmax = np.abs(poles).max() or 1.0
 
     @_util.ravel_argument(last_dim=True)
     def __call__(self, tau):
-- 
2.43.0


From be0ea117d10fb32fab9915e3475e04724fc7adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 16/48] fix: derivatives of piecewise polynomials have correct
 polyorder

The stale value made it impossible to construct their Fourier transform.
---
 src/sparse_ir/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index bc178e0..9531177 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -26,6 +26,7 @@ class PiecewiseLegendrePoly:
                 raise RuntimeError("wrong arguments")
             self.__dict__.update(knots.__dict__)
             self.data = data
+            self.polyorder = data.shape[0]
             self.symm = symm
             return
 
-- 
2.43.0


From de09bd866f37158b4423d3db069d6cc92dbbdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 17/48] fix: high-frequency model does not assume alternating
 parity

The moments assumed the l-th polynomial to have parity (-1)**l, which is only
true for a full set of singular functions of a centrosymmetric kernel.
---
 src/sparse_ir/poly.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 9531177..d39488e 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -429,21 +429,22 @@ def _derivs(ppoly, x):
         yield ppoly(x)
 
 
-def _power_moments(stat, deriv_x1):
+def _power_moments(stat, deriv_x1, deriv_xm1):
     """Return moments"""
     statsign = {'odd': -1, 'even': 1}[stat]
-    mmax, lmax = deriv_x1.shape
+    mmax, _ = deriv_x1.shape
     m = np.arange(mmax)[:,None]
-    l = np.arange(lmax)[None,:]
-    coeff_lm = ((-1.0)**(m+1) + statsign * (-1.0)**l) * deriv_x1
-    return -statsign/np.sqrt(2.0) * coeff_lm
+    coeff_lm = (-1.0)**m * (statsign * deriv_x1 - deriv_xm1)
+    return coeff_lm / np.sqrt(2.0)
 
 
 def _power_model(stat, poly):
     deriv_x1 = np.asarray(list(_derivs(poly, x=1)))
+    deriv_xm1 = np.asarray(list(_derivs(poly, x=-1)))
     if deriv_x1.ndim == 1:
         deriv_x1 = deriv_x1[:,None]
-    moments = _power_moments(stat, deriv_x1)
+        deriv_xm1 = deriv_xm1[:,None]
+    moments = _power_moments(stat, deriv_x1, deriv_xm1)
     return _PowerModel(moments)
 
 
-- 
2.43.0


From 0fa2d47bec2d549999192dd1b0c29eabed5f1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 18/48] fix: methods with ravelled argument are bound to their
 instance

The instance was stored in the class-wide descriptor, so bound methods that
were stored or used in different threads acted on the wrong object.
---
 src/sparse_ir/_util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/_util.py b/src/sparse_ir/_util.py
index e2ae6d9..4d52334 100644
--- a/src/sparse_ir/_util.py
+++ b/src/sparse_ir/_util.py
@@ -22,8 +22,11 @@ class RavelArgumentDecorator(object):
         functools.update_wrapper(self, inner)
 
     def __get__(self, instance, _owner=None):
-        self.instance = instance
-        return self
+        # The decorator is shared between all instances, so, like for methods,
+        # we must bind to a new object here
+        bound = RavelArgumentDecorator(self.inner, self.last_dim)
+        bound.instance = instance
+        return bound
 
     def __call__(self, x):
         x = np.asarray(x)
-- 
2.43.0


From c07eedf6a4b7d819137d29014f877df0c238d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 19/48] fix: basis can be constructed for kernels without
 lambda_

Use the convergence radius provided by the kernel as documented.
---
 src/sparse_ir/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index ec4588d..66d547b 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -84,7 +84,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         uhat_base_full = poly.PiecewiseLegendrePoly(
                             np.sqrt(beta) * sve_result.u.data, sve_result.u,
                             symm=sve_result.u.symm)
-        conv_radius = 40 * self.kernel.lambda_
+        conv_radius = self.kernel.conv_radius
         even_odd = {'F': 'odd', 'B': 'even'}[statistics]
         self._uhat_full = poly.PiecewiseLegendreFT(uhat_base_full, even_odd,
                                                    n_asymp=conv_radius)
@@ -204,7 +204,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         temperature.  Note that this implies a different UV cutoff ``wmax``,
         since ``lambda_ == beta * wmax`` stays constant.
         """
-        new_wmax = self._kernel.lambda_ / new_beta
+        new_wmax = getattr(self._kernel, "lambda_", self.lambda_) / new_beta
         return FiniteTempBasis(self._statistics, new_beta, new_wmax, 0,
                                max_size=self.size, kernel=self._kernel,
                                sve_result=self._sve_result)
-- 
2.43.0


From 216e55a1ea9b266b06c8d07be8dc90d30bc364eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 20/48] fix: SplitDecomposedMatrix.lstsq accepts sequences

---
 src/sparse_ir/sampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 39f5a30..20e9307 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -338,6 +338,7 @@ class SplitDecomposedMatrix:
         return _matop_along_axis(self._a.__matmul__, x, axis)
 
     def _lstsq(self, x):
+        x = np.asarray(x)
         r = self._urealT @ x.real
         r += self._uimagT @ x.imag
         r = r / (self._s[:, None] if r.ndim > 1 else self._s)
-- 
2.43.0


From 7adcb815f69412b569b3b4d389c093b14eddc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 21/48] fix: overlap integrals converge for vanishing
 components

The relative error was 0/0 for those, which kept all components of the
integral from ever being considered converged.
---
 src/sparse_ir/poly.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index d39488e..e8e4b31 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -505,9 +505,7 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         intmagn = np.abs(int10)
 
         magn = res_magn + intmagn.sum(1).max(1)
-        relerror = intdiff.max(2) / magn[:, None]
-
-        xconverged = (relerror <= rtol).all(0)
+        xconverged = (intdiff.max(2) <= rtol * magn[:, None]).all(0)
         res_value += int10[:, xconverged].sum(1)
         res_error += intdiff[:, xconverged].sum(1)
         res_magn += intmagn[:, xconverged].sum(1).max(1)
-- 
2.43.0


From daae78d4b091e0249e76744bf321dd2290ccfe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 22/48] fix: reject strings other than 'F' and 'B' as
 statistics

The substring check let '' and 'FB' pass.
---
 src/sparse_ir/basis.py  | 2 +-
 src/sparse_ir/kernel.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 66d547b..4faa6db 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -314,7 +314,7 @@ def _fence_matsubara_sampling(wn, positive_only):
 
 
 def _get_kernel(statistics, lambda_, kernel):
-    if statistics not in 'BF':
+    if statistics not in ('B', 'F'):
         raise ValueError("statistics must either be 'B' (for bosonic basis) "
                          "or 'F' (for fermionic basis)")
     if kernel is None:
diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index f7959ff..1fed9f2 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -93,7 +93,7 @@ class AbstractKernel:
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """Return the weight function for given statistics"""
-        if statistics not in 'FB':
+        if statistics not in ('F', 'B'):
             raise ValueError("statistics must be 'F' for fermions or 'B' for bosons")
         return lambda x: np.ones_like(x)
 
@@ -200,7 +200,7 @@ class LogisticKernel(AbstractKernel):
          - Fermion: `w(x) == 1`
          - Boson: `w(y) == 1/tanh(Λ*y/2)`
         """
-        if statistics not in "FB":
+        if statistics not in ('F', 'B'):
             raise ValueError("invalid value of statistics argument")
         if statistics == "F":
             return lambda y: np.ones_like(y)
-- 
2.43.0


From 45bd3c2d1a81fd915dd26ceb09fb03a6fcd6bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 23/48] fix: document the axis evaluate() and fit() act on by
 default

---
 src/sparse_ir/sampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 20e9307..78345a0 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -29,7 +29,8 @@ class AbstractSampling:
                 `l`-th basis coefficient
             axis (integer):
                 Axis or dimension of `al` along which to evaluate the function.
-                Defaults to the last, i.e., rightmost axis.
+                Defaults to the axis a matrix multiplication from the left acts
+                on, i.e., the only axis for vectors, otherwise the last but one.
             points (vector):
                 Points on which the results should be evaluated.  Defaults
                 to the sampling points for which the sampling objects was
@@ -63,7 +64,8 @@ class AbstractSampling:
                 given.)
             axis (integer):
                 Axis or dimension of `ax` along which to fit the function.
-                Defaults to the last, i.e., rightmost axis.
+                Defaults to the axis a matrix multiplication from the left acts
+                on, i.e., the only axis for vectors, otherwise the last but one.
             points (vector):
                 Points on which the `ax` is given.  Defaults to the sampling
                 points for which the sampling objects was created.
-- 
2.43.0


From 5b98ba38d84daa172f5972ab1e0312784ad7997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 24/48] fix: gauge of singular functions for kernels on other
 intervals

ulx(1) may be out of range or a root unless the x interval ends at one.
---
 src/sparse_ir/sve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 3e94cf1..f029789 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -345,7 +345,7 @@ def _canonicalize(ulx, vly):
     fix that gauge by demanding u_l(1) > 0.  This ensures a diffeomorphic
     connection to the Legendre polynomials for lambda_ -> 0.
     """
-    gauge = np.sign(ulx(1))
+    gauge = np.sign(ulx(ulx.xmax))
     ulx.data[None, None, :] *= 1/gauge
     vly.data[None, None, :] *= gauge
 
-- 
2.43.0


From 5479b5c91d20e9408fc142d5b0e3f0f431e8b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 25/48] fix: diverging asymptotic model of uhat for small
 cutoffs

For RegularizedBoseKernel(0.1), uhat was evaluated from its asymptotic model
already for n > 4, where the latter diverges: the segments of the basis
functions do not scale with the cutoff below 10, so that noise in their high
derivatives yielded values of uhat off by many orders of magnitude.
---
 src/sparse_ir/kernel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 1fed9f2..13b7261 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -191,7 +191,10 @@ class LogisticKernel(AbstractKernel):
         return super().get_symmetrized(sign)
 
     @property
-    def conv_radius(self): return 40 * self.lambda_
+    def conv_radius(self):
+        # the segments, and thus the derivatives of the basis functions, do not
+        # scale with the cutoff for small cutoffs
+        return 40 * max(self.lambda_, 1)
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """
@@ -306,7 +309,9 @@ class RegularizedBoseKernel(AbstractKernel):
     def ypower(self): return 1
 
     @property
-    def conv_radius(self): return 40 * self.lambda_
+    def conv_radius(self):
+        # segments do not become any larger for small cutoffs
+        return 40 * max(self.lambda_, 10)
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """ Return the weight function for given statistics """
-- 
2.43.0


From 4c4059c0368c01831750f74f0b357e2d895e645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 26/48] fix: document origin and normalisation of
 PiecewiseLegendreFT

---
 src/sparse_ir/poly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index e8e4b31..ca3ee85 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -202,7 +202,8 @@ class PiecewiseLegendreFT:
     For a given frequency index ``n``, the Fourier transform of the Legendre
     function is defined as::
 
-            phat(n) == ∫ dx exp(1j * pi * n * x / (xmax - xmin)) p(x)
+            phat(n) == ∫ dx exp(1j * pi * n * (x - xmin) / (xmax - xmin))
+                            * p(x) / sqrt(2)
 
     The polynomial is continued either periodically (``freq='even'``), in which
     case ``n`` must be even, or antiperiodically (``freq='odd'``), in which case
-- 
2.43.0


From be56f5242be35f7759f911473c9206f284c37ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 27/48] fix: indexing Fourier transforms without asymptotic
 model

Selecting from such a transform built an unused model for it, which fails
for freq='any' and for more than one index.
---
 src/sparse_ir/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index ca3ee85..a417d1a 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -218,7 +218,7 @@ class PiecewiseLegendreFT:
         self.poly = poly
         self.freq = freq
         self.zeta = {'any': None, 'even': 0, 'odd': 1}[freq]
-        if n_asymp is None:
+        if n_asymp is None or n_asymp == np.inf:
             self.n_asymp = np.inf
             self._model = None
         else:
-- 
2.43.0


From a6f8af49ea040c879f50e57891817b1a831d802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 28/48] fix: default sampling points in time and frequency for
 small cutoffs

For cutoffs of order one and below, basis functions consist of two segments
only, with more than two roots each.  Most of these were missed, such that
sampling came with a warning and far fewer points than basis functions.
---
 src/sparse_ir/basis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 4faa6db..caa4f03 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -230,18 +230,22 @@ def _default_sampling_points(u, L):
     if u.xmin != -1 or u.xmax != 1:
         raise ValueError("expecting unscaled functions here")
 
+    # Usually, there are fewer roots than segments.  This is not so for small
+    # cutoffs, however, where we must look more closely at each segment.
+    alpha = 2 if L < u.nsegments else 8 * -(-L // u.nsegments)
+
     if L < u.size:
         # For orthogonal polynomials (the high-T limit of IR), we know that the
         # ideal sampling points for a basis of size L are the roots of the L-th
         # polynomial.  We empirically find that these stay good sampling points
         # for our kernels (probably because the kernels are totally positive).
-        x0 = u[L].roots()
+        x0 = u[L].roots(alpha)
     else:
         # If we do not have enough polynomials in the basis, we approximate the
         # roots of the L'th polynomial by the extrema of the (L-1)'st basis
         # function, which is sensible due to the strong interleaving property
         # of these functions' roots.
-        maxima = u[-1].deriv().roots()
+        maxima = u[-1].deriv().roots(alpha)
 
         # Putting the sampling points right at [0, beta], which would be the
         # local extrema, is slightly worse conditioned than putting it in the
-- 
2.43.0


From e0cc504198e325897ffa49fc474a154c303395dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 29/48] fix: extended precision SVD of tall matrices of full
 rank

---
 src/sparse_ir/svd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index f32c59f..2e5041a 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -98,5 +98,12 @@ def _ddouble_svd_trunc(a):
     """Truncated SVD with double double precision"""
     if _xprec_linalg is None:
         raise RuntimeError("require xprec package for this precision")
+
+    # Jacobi can only handle the transposed QR factor of wide matrices
+    m, n = a.shape
+    if m > n:
+        u, s, v = _ddouble_svd_trunc(a.T)
+        return v, s, u
+
     u, s, vh = _xprec_linalg.svd_trunc(a)
     return u, s, vh.T
-- 
2.43.0


From e655edcc0618e4b627d18e5df4fbd3d8f0a8313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 30/48] fix: extended precision SVD of singular matrices is not
 NaN

---
 src/sparse_ir/svd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index 2e5041a..2abc982 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -106,4 +106,7 @@ def _ddouble_svd_trunc(a):
         return v, s, u
 
     u, s, vh = _xprec_linalg.svd_trunc(a)
-    return u, s, vh.T
+
+    # Singular vectors are undefined (NaN) for vanishing singular values
+    where = s != 0
+    return u[:, where], s[where], vh.T[:, where]
-- 
2.43.0


From 7b5cf15d126e84796d8503c5d0db192160cf1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 31/48] fix: DLR default_tau_sampling_points accepts npoints

---
 src/sparse_ir/dlr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index bada0ed..18183d0 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -118,8 +118,8 @@ class DiscreteLehmannRepresentation(abstract.AbstractBasis):
         """
         return self.matrix.matmul(g_dlr, axis)
 
-    def default_tau_sampling_points(self):
-        return self.basis.default_tau_sampling_points()
+    def default_tau_sampling_points(self, **kwargs):
+        return self.basis.default_tau_sampling_points(**kwargs)
 
     def default_matsubara_sampling_points(self, **kwargs):
         return self.basis.default_matsubara_sampling_points(**kwargs)
-- 
2.43.0


From 1aa808c363d60443c4b0c0f3e8a41a1c947e5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 32/48] fix: DLR functions reject invalid Matsubara frequencies

---
 src/sparse_ir/dlr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 18183d0..3384134 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -138,6 +138,7 @@ class MatsubaraPoles:
     @_util.ravel_argument(last_dim=True)
     def __call__(self, n):
         """Evaluate basis functions at given frequency n"""
+        n = _util.check_reduced_matsubara(n, {'F': 1, 'B': 0}[self._statistics])
         iv = 1j*n * np.pi/self._beta
         if self._statistics == 'F':
             return 1 /(iv[None, :] - self._poles[:, None])
-- 
2.43.0


From 615cbf9d6470e4224bc09b5a712e3658d8779ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 33/48] fix: negative indices of augmented functions count from
 the end

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 599772b..0f8df29 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -167,7 +167,7 @@ class _AugmentedFunction:
                 raise NotImplementedError("Don't truncate to only augmentation")
             return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
-            l = int(l)
+            l = range(self.size)[int(l)]
             if l < self._naug:
                 return self._faug[l]
             else:
-- 
2.43.0


From 67a073e638bf38fc3b965a5f0a1a08326f429eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 34/48] fix: RegularizedBoseKernel at zero frequency in single
 precision

The threshold 1e-200 rounds to zero in single precision, such that zero was
not considered tiny and the result was 0/0.
---
 src/sparse_ir/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 13b7261..067884d 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -287,7 +287,7 @@ class RegularizedBoseKernel(AbstractKernel):
         # it has a singularity at v=0, which can be cured by treating that case
         # separately.  Secondly, the denominator loses precision around 0 since
         # exp(v) = 1 + v + ..., which can be avoided using expm1(...)
-        not_tiny = abs_v >= 1e-200
+        not_tiny = abs_v > 1e-200
         denom = np.full_like(enum, -1)
         np.divide(abs_v, np.expm1(-abs_v, where=not_tiny),
                   out=denom, where=not_tiny)
-- 
2.43.0


From a70382c98621e5d1170021ece1db5f95434eaad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 35/48] fix: piecewise polynomial rejects dx of wrong shape

Any dx which can be broadcast against the knots was accepted, and evaluation
failed later, or used only part of it.
---
 src/sparse_ir/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index a417d1a..e07a800 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -48,6 +48,8 @@ class PiecewiseLegendrePoly:
             dx = knots[1:] - knots[:-1]
         else:
             dx = np.array(dx)
+            if dx.shape != (nsegments,):
+                raise ValueError("Invalid dx array")
             if not np.allclose(dx, knots[1:] - knots[:-1]):
                 raise ValueError("dx must work with knots")
 
-- 
2.43.0


From 09d6ef83af895e017a510f196b703fa3ff68c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 36/48] fix: overlap with break points next to the end of the
 interval

For a break point closest to, but not on, the end of the interval, nodes of
the quadrature rule were rounded to outside of the interval, which raised
an error.
---
 src/sparse_ir/poly.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index e07a800..eae35da 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -477,7 +477,7 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
     if points is None:
         knots = poly.knots
     else:
-        points = np.asarray(points)
+        points = _util.check_range(points, poly.xmin, poly.xmax)
         knots = np.unique(np.hstack((poly.knots, points)))
     xstart = knots[:-1]
     xstop = knots[1:]
@@ -494,14 +494,16 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
 
         rule = base_rule.reseat(xstart[:, None], xstop[:, None])
 
-        fx = np.array(list(map(f, rule.x.ravel())))
+        # Tiny segments may have nodes rounded to outside of the interval
+        x = rule.x.clip(poly.xmin, poly.xmax)
+        fx = np.array(list(map(f, x.ravel())))
         if f_shape is None:
             f_shape = fx.shape[1:]
         elif fx.shape[1:] != f_shape:
             raise ValueError("inconsistent shapes")
-        fx = fx.reshape(rule.x.shape + (-1,))
+        fx = fx.reshape(x.shape + (-1,))
 
-        valx = poly(rule.x).reshape(-1, *rule.x.shape, 1) * fx
+        valx = poly(x).reshape(-1, *x.shape, 1) * fx
         int21 = (valx[:, :, :, :] * rule.w[:, :, None]).sum(2)
         int10 = (valx[:, :, rule.vsel, :] * rule.v[:, :, None]).sum(2)
         intdiff = np.abs(int21 - int10)
-- 
2.43.0


From b472b4ae985c439456e9a78d50e07531b258cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 37/48] fix: roots() finds two roots in the same half of a
 piece

Pieces are divided into alpha parts of equal size, where an even number of
roots in the same part was missed, even though the piece had no more than
alpha roots.  Separate the roots by the extrema of the polynomial.
---
 src/sparse_ir/poly.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index eae35da..fb2520d 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -162,7 +162,11 @@ class PiecewiseLegendrePoly:
             else:
                 grid = np.hstack((xmid, grid[grid > xmid]))
 
+        # Two roots of the same piece must be separated, or both are missed.
+        # In between, the derivative vanishes.
         grid = _refine_grid(grid, alpha)
+        extra = self._stationary_points()
+        grid = np.union1d(grid, extra[extra > grid[0]])
         roots = _roots.find_all(self, grid)
 
         if self.symm == 1:
@@ -179,6 +183,16 @@ class PiecewiseLegendrePoly:
 
         return roots
 
+    def _stationary_points(self):
+        """Return (approximate) roots of the derivative within each piece"""
+        points = [self.knots[:0]]
+        for i, dcoeff in enumerate(np_legendre.legder(self.data).T):
+            # Rounding may make double roots complex
+            xtilde = np_legendre.legroots(np_legendre.legtrim(dcoeff)).real
+            xtilde = xtilde[np.abs(xtilde) < 1]
+            points.append(self._xm[i] + xtilde / self._inv_xs[i])
+        return np.hstack(points)
+
     @property
     def shape(self): return self.data.shape[2:]
 
-- 
2.43.0


From 4d3e29cfeee435852f7dad1abb2415be74490148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 38/48] fix: shape of Fourier coefficients in the adapter

Like in irbasis, the result of compute_unl has the shape of the frequencies
given, followed by the indices, also if some dimensions have length one.
---
 src/sparse_ir/adapter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/adapter.py b/src/sparse_ir/adapter.py
index 7c296c8..938d4ed 100644
--- a/src/sparse_ir/adapter.py
+++ b/src/sparse_ir/adapter.py
@@ -93,9 +93,14 @@ class Basis:
 
     def compute_unl(self, n, whichl=None):
         """Compute transformation matrix from IR to Matsubara frequencies"""
-        n = _np.ravel(n)
-        nn = 2 * n + self._uhat.zeta
-        return _np.squeeze(_select(self._uhat, whichl)(nn).T)
+        nn = 2 * _np.asarray(n) + self._uhat.zeta
+        if whichl is None or not _np.ndim(whichl):
+            unl = _select(self._uhat, whichl)(nn)
+        else:
+            unl = self._uhat[_np.ravel(whichl)](nn)
+
+        # Other than irbasis, we drop the last dimension for a single l
+        return unl if unl.ndim == nn.ndim else _np.moveaxis(unl, 0, -1)
 
     def num_sections_x(self):
         "Number of sections of piecewise polynomial representation of u_l(x)"
-- 
2.43.0


From 20186b5f5fe8dcb98b37e8955a4bea2557dad8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 39/48] fix: diverging Fourier coefficients of the adapter for
 small cutoffs

The adapter switched to the asymptotic model at 40 * Lambda, where the latter
diverges for cutoffs below the smallest one irbasis tabulates.  Use the radius
of the kernel instead, as done for the basis.
---
 src/sparse_ir/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/adapter.py b/src/sparse_ir/adapter.py
index 938d4ed..7da823f 100644
--- a/src/sparse_ir/adapter.py
+++ b/src/sparse_ir/adapter.py
@@ -53,7 +53,7 @@ class Basis:
         self._s = s
         self._v = v
 
-        conv_radius = 40 * Lambda
+        conv_radius = sve_result.K.conv_radius
         even_odd = {'F': 'odd', 'B': 'even'}[statistics]
         self._uhat = _poly.PiecewiseLegendreFT(u, even_odd, conv_radius)
 
-- 
2.43.0


From 0c8912c1fd9024bad51cecd4021e0e3b554d8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 40/48] fix: fast SVD strategy for single precision

SciPy's interpolative decomposition accepts only double precision, so that an
expansion with work_dtype=np.float32 raised an error.
---
 src/sparse_ir/svd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index 2abc982..d8f8351 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -69,6 +69,8 @@ def _idsvd(a, n_sv):
     # Use interpolative decomposition, since it scales favorably to a full
     # SVD when we are only interested in a small subset of singular values.
     # NOTE: this returns the right singular vectors, not their conjugate!
+    # NOTE: SciPy implements this for double precision only.
+    a = np.asarray(a, np.result_type(a, np.float64))
     intp_decomp.seed(4711)
     return intp_decomp.svd(a, n_sv)
 
-- 
2.43.0


From f005ef1692510ae8ef4c96143c1e9100989925fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 41/48] fix: negative max_size is rejected

It was taken as an index and so dropped the last terms of the expansion.
---
 src/sparse_ir/sve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index f029789..fd2f5c7 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -127,6 +127,8 @@ class SVEResult:
     def part(self, eps=None, max_size=None):
         if eps is None:
             eps = self.eps
+        if max_size is not None and max_size < 0:
+            raise ValueError("maximum size must be non-negative")
         cut = (self.s >= eps * self.s[0]).sum()
         if max_size is not None and max_size < cut:
             cut = max_size
-- 
2.43.0


From 12121e07cbcad821c80f8900863fe2af52c55711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 42/48] fix: symmetric kernels whose segments do not contain
 zero

The reduced kernels insert zero in this case, but the full singular functions
were constructed from the original segments, which failed.
---
 src/sparse_ir/sve.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index fd2f5c7..3b2ff37 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -292,8 +292,12 @@ class CentrosymmSVE(AbstractSVE):
 
         # TODO: this relies on specific symmetrization behaviour ...
         full_hints = self.K.sve_hints(self.eps)
-        u = poly.PiecewiseLegendrePoly(u_data, full_hints.segments_x, symm=signs)
-        v = poly.PiecewiseLegendrePoly(v_data, full_hints.segments_y, symm=signs)
+        segs_x = kernel._symm_segments(full_hints.segments_x)
+        segs_y = kernel._symm_segments(full_hints.segments_y)
+        segs_x = np.concatenate((-segs_x[:0:-1], segs_x))
+        segs_y = np.concatenate((-segs_y[:0:-1], segs_y))
+        u = poly.PiecewiseLegendrePoly(u_data, segs_x, symm=signs)
+        v = poly.PiecewiseLegendrePoly(v_data, segs_y, symm=signs)
         return SVEResult(u, s, v, self.K, self.eps)
 
 
-- 
2.43.0


From ef61e263a2f9c6b54db3624863a2422f2a024ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 43/48] fix: reduced kernels on intervals other than [-1, 1]

The distance x_plus to the lower boundary passed to the inner kernel assumed
that the latter was -1, so the singular values of kernels using it were wrong.
---
 src/sparse_ir/kernel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 067884d..b1f0544 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -388,10 +388,11 @@ class ReducedKernel(AbstractKernel):
     def __call__(self, x, y, x_plus=None, x_minus=None):
         x, y = _check_domain(self, x, y)
 
-        # The reduced kernel is defined only over the interval [0, 1], which
-        # means we must add one to get the x_plus for the inner kernels.  We
-        # can compute this as 1 + x, since we are away from -1.
-        x_plus = 1 + (x if x_plus is None else x_plus)
+        # The reduced kernel is defined only over the interval [0, xmax], which
+        # means we must add xmax to get the x_plus for the inner kernels.  We
+        # can compute this as xmax + x, since we are away from -xmax.
+        _, xmax = self.xrange
+        x_plus = xmax + (x if x_plus is None else x_plus)
 
         K_plus = self.inner(x, y, x_plus, x_minus)
         K_minus = self.inner(x, -y, x_plus, x_minus)
-- 
2.43.0


From 66fd46af3c2c4bd620aae60ed51e625c2f42f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 44/48] fix: default sampling points for one or two functions
 only

---
 src/sparse_ir/basis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index caa4f03..572eaa8 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -250,10 +250,12 @@ def _default_sampling_points(u, L):
         # Putting the sampling points right at [0, beta], which would be the
         # local extrema, is slightly worse conditioned than putting it in the
         # middel.  This can be understood by the fact that the roots never
-        # occur right at the border.
-        left = .5 * (maxima[:1] + u.xmin)
-        right = .5 * (maxima[-1:] + u.xmax)
-        x0 = np.concatenate([left, maxima, right])
+        # occur right at the border.  Without any inner extrema, or with a
+        # single function, the center takes their place.
+        inner = maxima if L > 1 and maxima.size else np.zeros(1)
+        left = .5 * (inner[:1] + u.xmin)
+        right = .5 * (inner[-1:] + u.xmax)
+        x0 = inner if L == 1 else np.concatenate([left, maxima, right])
 
     if x0.size != L:
         warn(f"Requesting {L} sampling points for corresponding basis size,\n"
-- 
2.43.0


From 9d4b13711855cbf441ac5890a523981fbb3fc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 45/48] fix: Matsubara sampling frequencies for cutoffs above
 10**7

---
 src/sparse_ir/poly.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index fb2520d..12b5cb4 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -277,7 +277,7 @@ class PiecewiseLegendreFT:
         if self.poly.shape:
             raise ValueError("select single polynomial")
         if grid is None:
-            grid = self._DEFAULT_GRID
+            grid = self._default_grid()
 
         f = self._func_for_part(part)
         x0 = _roots.discrete_extrema(f, grid)
@@ -291,7 +291,7 @@ class PiecewiseLegendreFT:
         if self.poly.shape:
             raise ValueError("select single polynomial")
         if grid is None:
-            grid = self._DEFAULT_GRID
+            grid = self._default_grid()
 
         f = self._func_for_part(part)
         x0 = _roots.find_all(f, grid, type='discrete')
@@ -300,6 +300,17 @@ class PiecewiseLegendreFT:
             x0 = _symmetrize_matsubara(x0)
         return x0
 
+    def _default_grid(self):
+        """Return default grid, extended as needed for large cutoffs"""
+        # Basis functions are featureless well before asymptotics take over
+        grid = self._DEFAULT_GRID
+        last = self.n_asymp / 8
+        if grid[-1] < last < np.inf:
+            nextra = int(np.ceil(16 * np.log2(last / grid[-1])))
+            extra = 2**(np.arange(1, nextra + 1) / 16)
+            grid = np.hstack([grid, (grid[-1] * extra).astype(int)])
+        return grid
+
     def _func_for_part(self, part=None):
         if part is None:
             parity = self.poly.symm
-- 
2.43.0


From 2c99b6a6afe97a8cd1632bddc279a8c76ebd4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 46/48] fix: Matsubara frequencies of unsigned and short
 integer types

---
 src/sparse_ir/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/_util.py b/src/sparse_ir/_util.py
index 4d52334..1f88195 100644
--- a/src/sparse_ir/_util.py
+++ b/src/sparse_ir/_util.py
@@ -53,7 +53,7 @@ def check_reduced_matsubara(n, zeta=None):
     we expect an even one.  If ``zeta`` is omitted, any one is fine.
     """
     n = np.asarray(n)
-    if not np.issubdtype(n.dtype, np.integer):
+    if n.dtype != int:
         nfloat = n
         n = nfloat.astype(int)
         if not (n == nfloat).all():
-- 
2.43.0


From 2518ff44bf537a23467b92ee8a25ed2930f55fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 47/48] fix: integer types overflowing in kernels

---
 src/sparse_ir/kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index b1f0544..e0c15be 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -513,6 +513,9 @@ def _check_domain(kernel, x, y):
     ymin, ymax = kernel.yrange
     if not (y >= ymin).all() or not (y <= ymax).all():
         raise ValueError("y values not in range [{:g},{:g}]".format(ymin, ymax))
+
+    # Integers may overflow on negation or multiplication with the cutoff
+    x, y = (z.astype(float) if z.dtype.kind in 'biu' else z for z in (x, y))
     return x, y
 
 
-- 
2.43.0


From 2c63d4f94d5502e514a51b311958a07716c74a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 48/48] fix: inaccurate asymptotic model of uhat for
 RegularizedBoseKernel

For frequencies right above conv_radius, uhat of the highest functions (those
with singular values below 1e-12, in extended precision) was off by 1e-10 to
1e-9, where 1e-14 is reached everywhere else, as the asymptotic expansion
converges only at about twice that frequency.
---
 src/sparse_ir/kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index e0c15be..344db3a 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -310,8 +310,9 @@ class RegularizedBoseKernel(AbstractKernel):
 
     @property
     def conv_radius(self):
-        # segments do not become any larger for small cutoffs
-        return 40 * max(self.lambda_, 10)
+        # segments do not become any larger for small cutoffs, and the model
+        # converges later than for the logistic kernel for high functions
+        return 80 * max(self.lambda_, 5)
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """ Return the weight function for given statistics """
-- 
2.43.0

