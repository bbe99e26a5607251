From 80588ef64f25b81af075a255248da04001459bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 01/28] fix: return the Fringe index as plain int so that it is
 accepted by the methods expecting int

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5a03ed2..e272ba1 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -711,7 +711,7 @@ class ZernPol:
             Fringe index.
 
         """
-        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2
+        return int((1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2)
 
     @staticmethod
     def index2orders(**kwargs) -> tuple:
-- 
2.43.0


From afa6e81e588ea25dcffca7190406277280650564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 02/28] fix: raise ValueError for index out of the search range
 instead of returning wrong orders

---
 src/zernpy/zernikepol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index e272ba1..448197e 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -723,6 +723,11 @@ class ZernPol:
         **kwargs : dict
             Recognizable values: osa_index, noll_index, fringe_index.
 
+        Raises
+        ------
+        ValueError
+            If orders corresponding to the provided index haven't been found (index is out of the supported range).
+
         Returns
         -------
         tuple
@@ -756,6 +761,8 @@ class ZernPol:
                 m += 2
             if stop_search:
                 break
+        if not stop_search:
+            raise ValueError("Orders haven't been found for the provided index, it is out of the supported range")
         return m, n
 
     @staticmethod
-- 
2.43.0


From 7df8a7c83d17aaaca157a8a86a75cbaf3d7187e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 03/28] fix: reject azimuthal orders with |m| > n in ZernPol
 initialization

---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 448197e..b284c93 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -115,6 +115,8 @@ class ZernPol:
                                     raise ValueError("Failed sanity check: n - |m| == even number")
                                 elif self.__n < 0:
                                     raise ValueError("Failed sanity check: order n less than 0")
+                                elif abs(self.__m) > self.__n:
+                                    raise ValueError("Failed sanity check: |m| <= n")
                                 elif self.__n == 0 and self.__m != 0:
                                     raise ValueError("Failed sanity check: when n == 0, m should be also == 0")
                                 elif self.__n < 0:
-- 
2.43.0


From 59cdda563cd8a3fa8277f945de0532e6158b4ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 04/28] fix: check the steps for generation of polar
 coordinates as documented (the chained comparison was never true)

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index b284c93..dc40ebe 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1023,9 +1023,9 @@ class ZernPol:
             Theta - vector with theta angles values [0.0, theta_rad_step, ... 2*pi].
 
         """
-        if 0.0 >= r_step > 0.5:
+        if r_step <= 0.0 or r_step > 0.5:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
-        if 0.0 >= theta_rad_step > np.pi:
+        if theta_rad_step <= 0.0 or theta_rad_step > np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
-- 
2.43.0


From e77c72eeb1e36a64c8de5e23b6e120dff6c6da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 05/28] fix: use radial polynomial instead of its derivative in
 the product rule for derivatives with m = 0 and high orders

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..e636aa3 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From 629eab2065deabc930d1980f744618ae1e7d093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 06/28] fix: include the last two nodes of the Simpson rule for
 integration on the pupil angle

---
 src/zernpy/calculations/calc_psfs.py       | 16 ++++++++--------
 src/zernpy/calculations/calc_psfs_numba.py |  8 ++++----
 src/zernpy/zernpsf.py                      |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..33f9bbf 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -217,9 +217,9 @@ def get_psf_point_r(zernike_pol, r: float, theta: float, alpha: float, n_int_r_p
     """
     # Integration on the pupil radius using Simpson equation
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    for i in range(2, n_int_phi_points-2, 2):
+    for i in range(2, n_int_phi_points, 2):
         phi = i*h_phi; even_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
-    for i in range(1, n_int_phi_points-1, 2):
+    for i in range(1, n_int_phi_points, 2):
         phi = i*h_phi; odd_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
     yA = radial_integral(zernike_pol, r, theta, 0.0, alpha, n_int_r_points)
     yB = radial_integral(zernike_pol, r, theta, 2.0*pi, alpha, n_int_r_points)
@@ -263,14 +263,14 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
 
     # Vectorized or parallelized form of for loop for even and odd phi-s
     if not joblib_installed or paralleljobs is None:
-        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
         even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
         odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     else:
         if paralleljobs is not None and isinstance(paralleljobs, Parallel):
-            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-2, 2))
-            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points-1, 2))
+            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points, 2))
+            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points, 2))
             # even_sum = sum(even_sums, start=even_sum); odd_sum = sum(even_sums, start=odd_sum)
             even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums); odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
 
@@ -592,9 +592,9 @@ def get_psf_point_r_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # Vectorized or parallelized form of for loop for even and odd phi-s
-    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols(polynomials, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..7f6a547 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -258,9 +258,9 @@ def get_psf_point_r_comp(orders: tuple, r: float, theta: float, alpha: float, n_
 
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_comp(orders, r, theta, 0.0, alpha, n_int_r_points)
@@ -541,10 +541,10 @@ def get_psf_point_r_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     even_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                 for i in range(2, n_int_phi_points-2, 2)]
+                 for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
     odd_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                for i in range(1, n_int_phi_points-1, 2)]
+                for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..b7d8a0f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -694,13 +694,13 @@ class ZernPSF:
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
-            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points-2, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
             # t1 = time.perf_counter()
             even_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
             # print("Calculation takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
-            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
         # Simpson integration rule implementation
-- 
2.43.0


From 995b049ff5660d3a0551181df248ed5c30a35ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 07/28] fix: do not count the endpoint twice (or exceed 1.0)
 for integration on the pupil radius

---
 src/zernpy/calculations/calc_psfs.py       | 6 +++---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 33f9bbf..a439fa8 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -129,7 +129,7 @@ def radial_integral(zernike_pol, r: float, theta: float, phi: float, alpha: floa
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -164,7 +164,7 @@ def radial_integral_args(phi: float, zernike_pol, r: float, theta: float, alpha:
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -558,7 +558,7 @@ def radial_integral_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r_pols(polynomials, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols(polynomials, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols(polynomials, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 7f6a547..7fa65c2 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -221,7 +221,7 @@ def radial_integral_comp(orders: tuple, r: float, theta: float, phi: float, alph
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r_comp(orders, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r_comp(orders, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_comp(orders, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -501,7 +501,7 @@ def radial_integral_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = np.arange(1, n_int_r_points)*h_p
     fa = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From 565b0b3530efda1167078def338fb8d0d89fb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 08/28] fix: apply normalization and triangular function for
 polynomials with |m| = n, n > 7 in accelerated calculation

---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 7fa65c2..180e657 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
-- 
2.43.0


From 637a352dd6c98bc6ef4be907b4e5e42ae4bc23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 09/28] fix: reject zero NA as documented instead of
 ZeroDivisionError

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b7d8a0f..5052606 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -185,7 +185,7 @@ class ZernPSF:
 
         """
         # Sanity check for NA
-        if NA < 0.0 or NA > 1.7:
+        if NA <= 0.0 or NA > 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
         if wavelength <= 0.0:
-- 
2.43.0


From 81cf4d7aef09c1a6e002ed40fe894c58c3fef8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 10/28] fix: calculate angular frequency from the provided
 wavelength

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 5052606..e95d885 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -190,7 +190,7 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-- 
2.43.0


From 2041653e5b20e9b7d45783595aec5270fca9acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 11/28] fix: raise documented ValueError for initialization of
 ZernPSF with not ZernPol instances

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index e95d885..bbdcd9b 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -120,6 +120,8 @@ class ZernPSF:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
+                if not isinstance(zernpol[0], ZernPol):
+                    raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
                 self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
@@ -145,7 +147,7 @@ class ZernPSF:
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-            ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
+            raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
-- 
2.43.0


From 0976242e41577ab43f226dc1db1ef8ca4a6273eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 12/28] fix: accept the path provided as string for saving JSON
 file

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index bbdcd9b..30a73e1 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -570,7 +570,7 @@ class ZernPSF:
         """
         if abs_path is None:
             abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
-        if not Path.exists(abs_path):
+        if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
-- 
2.43.0


From 69fea5151dc88cce0dc67d548e190c252b4b15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 13/28] fix: restore the saved kernel size and polynomial type
 while reading JSON file

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 30a73e1..11f56e3 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -634,7 +634,7 @@ class ZernPSF:
                     ps = item; read_props += 1
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
-                    osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    osa_index = item; self.zernpol = ZernPol(osa=osa_index); self.polynomials = (); self.airy = osa_index == 0
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
@@ -649,7 +649,9 @@ class ZernPSF:
                         self.polynomials = pols; self.zernpol = None; self.airy = False
             # Assign read physical properties
             if read_props == 8:
+                read_kernel_size = self.kernel_size  # it will be overwritten by its estimation in the call below
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                self.kernel_size = read_kernel_size
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From 796f21b69a32e71b16489542cac1b9e77b11d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 14/28] fix: do not share lists of workers, triggers and queues
 between instances of DispenserManager

---
 src/zernpy/utils/intmproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..503f4cf 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -54,6 +54,7 @@ class DispenserManager():
 
         """
         self.verbose_info = verbose_info
+        self.__workers_pool = []; self.__triggers = []; self.__queues = []  # not shared between instances
         if self.verbose_info:
             t1 = time.perf_counter(); self.done_jobs_percentage = 0
         # Checking input parameters - workers
-- 
2.43.0


From aef353ae6688b367b5e04fbc9a1a4ba723d9bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 15/28] fix: provide required NA for estimation of kernel size
 in get_kernel_parallel()

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 11f56e3..ec9f019 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -732,7 +732,7 @@ class ZernPSF:
         """
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
+                                               wavelength=self.wavelength, NA=self.NA)
         if self.zernpol is None:
             self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
-- 
2.43.0


From d16816eedc48ee0e00c7a8798488daa2e3dc0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 16/28] fix: reset the released workers to allow their repeated
 initialization and to avoid computations without them

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index ec9f019..8ddd49b 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -763,7 +763,7 @@ class ZernPSF:
 
         """
         if self.__ParallelCalc is not None:
-            self.__ParallelCalc.close()
+            self.__ParallelCalc.close(); self.__ParallelCalc = None
 
 
 # %% Utility functions
-- 
2.43.0


From c2281fd3d0131c4795371a82c0f63f1611437374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 17/28] fix: integrate sequentially in
 get_psf_point_r_parallel() if workers aren't initialized

---
 src/zernpy/zernpsf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 8ddd49b..293f2a4 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -707,6 +707,10 @@ class ZernPSF:
             self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
+        else:  # workers haven't been initialized, sequential calculation
+            constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
+            even_sum = np.sum(np.asarray([radial_integral_s((i*h_phi, constants)) for i in range(2, self.n_int_phi_points, 2)]))
+            odd_sum = np.sum(np.asarray([radial_integral_s((i*h_phi, constants)) for i in range(1, self.n_int_phi_points, 2)]))
         # Simpson integration rule implementation
         yA = radial_integral(self.zernpol, r, theta, 0.0, self.alpha, self.n_int_r_points)
         yB = radial_integral(self.zernpol, r, theta, 2.0*pi, self.alpha, self.n_int_r_points)
-- 
2.43.0


From a1249d927eb794a85fb1e6b58302f5136b2ebc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 18/28] fix: estimated kernel size is never below 3

---
 src/zernpy/calculations/calc_psfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index a439fa8..41a153f 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -328,7 +328,7 @@ def get_kernel_size(zernike_pol, len2pixels: float, alpha: float, wavelength: fl
         size_ext += 1  # add one more line for kernel (prevent automatic warnings)
         multiplier *= sqrt(4.25*abs(alpha))  # Enlarge kernel size according to the provided amplitude, scaling with the coefficient
     # Estimation below based on the provided physical properties
-    size = int(round((multiplier*wavelength)/len2pixels, 0)) + 1 + size_ext
+    size = max(int(round((multiplier*wavelength)/len2pixels, 0)) + 1 + size_ext, 3)  # the smallest allowed kernel size is 3
     # Correct the size of a kernel to the odd integer below
     if size % 2 == 0:
         size += 1
-- 
2.43.0


From 15075107cc3d142d40b8551f68c1445a6524a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 19/28] fix: save NumPy scalars as numbers instead of leaving a
 truncated JSON file

---
 src/zernpy/calculations/calc_psfs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 41a153f..010440a 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -802,11 +802,11 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
             json_file_path = saved_psfs_folder.joinpath(f"psf_{osa_indices}_{expansion_coefficient}.json")
     # Data composing for recording
     data4serialization = {}   # python dictionary is similar to the JSON file structure and can be dumped directly there
-    data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = NA; data4serialization['Wavelength'] = wavelength
-    data4serialization["Pixel Size"] = pixel_size; data4serialization["Kernel Size"] = kernel_size
-    data4serialization["# of integration points R"] = n_int_points_r; data4serialization["# of integration points angle"] = n_int_points_phi
+    data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = float(NA); data4serialization['Wavelength'] = float(wavelength)
+    data4serialization["Pixel Size"] = float(pixel_size); data4serialization["Kernel Size"] = int(kernel_size)
+    data4serialization["# of integration points R"] = int(n_int_points_r); data4serialization["# of integration points angle"] = int(n_int_points_phi)
     if single_pol_used:
-        data4serialization["Expansion Coefficient"] = expansion_coefficient; data4serialization["Polynomial"] = zernike_pol.get_indices()[1]
+        data4serialization["Expansion Coefficient"] = float(expansion_coefficient); data4serialization["Polynomial"] = zernike_pol.get_indices()[1]
     else:
         data4serialization["Amplitudes"] = expansion_coefficient.tolist(); data4serialization["Polynomials"] = osa_indices
     # File presence check and recording
-- 
2.43.0


From 662f3bc4111f67f5abf755edb34b968909477b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 20/28] fix: warn on saving of not calculated kernel also if
 the kernel size has been estimated

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 293f2a4..5689d30 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -574,7 +574,7 @@ class ZernPSF:
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
-        if self.kernel_size == 1:
+        if self.kernel_size == 1 or self.kernel.shape[0] == 1:
             self.__warn_message = "Kernel most likely hasn't been calculated, the kernel size == 1 - default value"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         if self.zernpol is not None:  # single polynomial saving
-- 
2.43.0


From bdc1823c762c401137b38a555ca50d58cb1a7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 21/28] fix: convolution of an image without intensity is not
 divided by zero

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 010440a..fe2bae3 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -729,7 +729,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         convolved_img /= conv_coeff  # correct the convolution result by dividing to the kernel sum
     if scale2original:
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
-        scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+        if max_conv_pixel > 0.0:  # the image without any intensity isn't possible to rescale
+            scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From eda8fba5921b45aa81ad049a88795eef66905548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:24 +0000
Subject: [PATCH 22/28] fix: suppressing warnings changed the kernel size, and
 an explicitly set size was replaced without physical properties

---
 src/zernpy/zernpsf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 5689d30..4f85a0d 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -370,9 +370,12 @@ class ZernPSF:
         """
         if len(self.__warn_message) > 0 and not suppress_warnings:
             warnings.warn(self.__warn_message)
-        if not self.__physical_props_set and not suppress_warnings:
-            self.kernel_size = 19; self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
-            warnings.warn(self.__warn_message); self.__warn_message = ""
+        if not self.__physical_props_set:
+            if self.kernel_size < 3:  # the kernel size hasn't been set explicitly, use the default one
+                self.kernel_size = 19
+            if not suppress_warnings:
+                self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
+                warnings.warn(self.__warn_message); self.__warn_message = ""
         global numba_installed  # access the flag
         # Check provided flag
         if numba_installed and accelerated is None:
-- 
2.43.0


From 0f9f341e55784e79629d5ae55d4a12dafde1322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:43 +0000
Subject: [PATCH 23/28] fix: a refused call of set_calculation_props had
 already changed the kernel size

---
 src/zernpy/zernpsf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 4f85a0d..677ed91 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -295,6 +295,11 @@ class ZernPSF:
         # Sanity check for kernel size
         if kernel_size < 3:
             raise ValueError("Kernel size should be more than 3")
+        # Sanity checks for n_integration_points_r and n_integration_points_phi
+        if n_integration_points_r < 20:
+            raise ValueError("# of integration points for radius should be not less than 20")
+        if n_integration_points_phi < 36:
+            raise ValueError("# of integration points for angle phi should be not less than 36")
         # Check provided kernel size and the estimated one
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
@@ -307,11 +312,6 @@ class ZernPSF:
             self.__warn_message = "Please set the physical properties first for estimation of kernel size and after call this method"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
-        # Sanity checks for n_integration_points_r and n_integration_points_phi
-        if n_integration_points_r < 20:
-            raise ValueError("# of integration points for radius should be not less than 20")
-        if n_integration_points_phi < 36:
-            raise ValueError("# of integration points for angle phi should be not less than 36")
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
         # Associated with slow calculations warnings
         if n_integration_points_r > 500 and n_integration_points_phi > 400:
-- 
2.43.0


From 8083997f53a8ac8da3b18552d8761168482120ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:52 +0000
Subject: [PATCH 24/28] fix: a refused call of set_physical_props had already
 changed some of the properties

---
 src/zernpy/zernpsf.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 677ed91..24e9c22 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,17 +192,14 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
-        self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
-        self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-        self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
+        pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
+        pixel_size_nyquist_eStr = "{:.3e}".format(pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
         if pixel_physical_size <= 0.0:
             raise ValueError("Pixel physical size should be positive real number")
-        if pixel_physical_size > self.pixel_size_nyquist:
-            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {self.pixel_size_nyquist_eStr}"
+        if pixel_physical_size > pixel_size_nyquist:
+            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
                              + f" computed from the Abbe's resolution limit (0.5*{lambda_char}/NA)")
-        self.pixel_size = pixel_physical_size
         # Check which type is provided as the expansion_coeff parameter
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
@@ -213,18 +210,18 @@ class ZernPSF:
                     self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
                     if len(self.__warn_message) > 0:
                         warnings.warn(self.__warn_message); self.__warn_message = ""
-                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
                 else:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
                 # Sanity check for the maximum expansion coefficient of the polynomial
-                max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
+                max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-                self.amplitudes = self.coefficients / self.wavelength
+                self.amplitudes = coefficients / wavelength; self.coefficients = coefficients
         else:
             # Check consistency of provided type of polynomials and coefficients
             if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
@@ -237,7 +234,11 @@ class ZernPSF:
             self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
             if len(self.__warn_message) > 0:
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
+        # All checks passed, save the provided values as the class properties
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
+        self.NA = NA; self.wavelength = wavelength; self.pixel_size = pixel_physical_size
+        self.pixel_size_nyquist = pixel_size_nyquist; self.pixel_size_nyquist_eStr = pixel_size_nyquist_eStr
         # Kernel size estimation (could be changed explicitly in the method 'set_calculation_props'). Redefine it for each call
         if self.zernpol is not None:  # for single polynomial
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-- 
2.43.0


From 102f20e713e04e493d0ea34ebf0211594b58aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:11 +0000
Subject: [PATCH 25/28] fix: the radial values of order 1 were the array of the
 caller itself

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index e636aa3..9b4d393 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -114,7 +114,7 @@ def radial_polynomial(zernike_pol, r):
             return np.ones(shape=r.shape)
     # 1st order
     elif ((m == -1) and (n == 1)) or ((m == 1) and (n == 1)):
-        return r
+        return 1.0*r  # new array, not the provided one
     # 2nd order
     elif ((m == -2) and (n == 2)) or ((m == 2) and (n == 2)):
         return np.power(r, 2)  # r^2
-- 
2.43.0


From cbb832420ef5f4eecd0f240c60a2dd1d491136c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:33 +0000
Subject: [PATCH 26/28] fix: changing a coefficient array or a polynomial list
 afterwards changed the saved properties of the PSF

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 24e9c22..2d14d20 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -139,7 +139,7 @@ class ZernPSF:
                         if m == 0 and n == 0:
                             self.airy = True  # check if Airy pattern is among provided polynomials
                 if all_are_polls:
-                    self.polynomials = zernpol; self.zernpol = None
+                    self.polynomials = list(zernpol); self.zernpol = None
                     unique_osa_orders = set(osa_orders)  # check that all OSA orders are unique
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
@@ -215,7 +215,7 @@ class ZernPSF:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                coefficients = np.array(expansion_coeff)  # conversion to efficient array format (own copy)
                 # Sanity check for the maximum expansion coefficient of the polynomial
                 max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
-- 
2.43.0


From 2e37ce7e7b6366d042b6408cfd188a1e16e95b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:05 +0000
Subject: [PATCH 27/28] fix: a kernel size set before was reported as the
 estimated one, and truncation below the estimate was not warned about

---
 src/zernpy/zernpsf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 2d14d20..b41c789 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -73,6 +73,7 @@ class ZernPSF:
     zernpol: ZernPol = ZernPol(m=0, n=0)  # by default, Piston as the zero case (Airy pattern)
     polynomials = ()  # empty tuple - holder for provided Sequence with instances of ZernPol
     __physical_props_set: bool = False  # flag for saving that physical properties have been provided
+    __estimated_kernel_size: int = 1  # based on the provided physical properties
     __warn_message: str = ""; pixel_size_nyquist: float = 0.5*0.5*wavelength  # based on the Abbe limit
     pixel_size = 0.98*pixel_size_nyquist  # default value based on the limit above
     alpha: float = expansion_coeff / wavelength  # the role of amplitude for PSF calculation
@@ -263,6 +264,7 @@ class ZernPSF:
                 self.kernel_size = max_kernel_size
             if self.kernel_size % 2 == 0:
                 self.kernel_size += 1  # kernel size should odd
+        self.__estimated_kernel_size = self.kernel_size  # stored for comparing with the kernel size set explicitly
         self.__physical_props_set = True  # set internal flag True if no ValueError raised
 
     def set_calculation_props(self, kernel_size: int, n_integration_points_r: int, n_integration_points_phi: int) -> None:
@@ -305,8 +307,8 @@ class ZernPSF:
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
         if self.__physical_props_set:
-            if kernel_size < self.kernel_size:
-                self.__warn_message = (f"Empirically estimated kernel size = {self.kernel_size} based on the physical properties "
+            if kernel_size < self.__estimated_kernel_size:
+                self.__warn_message = (f"Empirically estimated kernel size = {self.__estimated_kernel_size} based on the physical properties "
                                        + f"is larger than provided size = {kernel_size}. PSF may be truncated.")
                 warnings.warn(self.__warn_message); self.__warn_message = ""
         else:
-- 
2.43.0


From 75c8f8b864a089aaff5a89247353dcfc07844719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:45 +0000
Subject: [PATCH 28/28] fix: numba versions older than 0.57.1 with a patch
 number above 0 were not warned about

---
 src/zernpy/zernpsf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b41c789..4332aca 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -822,10 +822,8 @@ def force_get_psf_compilation(verbose_report: bool = False) -> Union[tuple, None
             print("Precompilation started..."); t1 = time.perf_counter()  # for explicit showing of performance
         # Check the version of numba for guarantee working of compilation calls
         try:
-            if int(numba_ver_n[0]) == 0:
-                if int(numba_ver_n[1]) <= 57:
-                    if int(numba_ver_n[2]) < 1:
-                        __warn_message = "\nRecommended numba version for compilation >= 0.57.1"; warnings.warn(__warn_message)
+            if tuple(int(number) for number in numba_ver_n[:3]) < (0, 57, 1):
+                __warn_message = "\nRecommended numba version for compilation >= 0.57.1"; warnings.warn(__warn_message)
         except ValueError:
             __warn_message = "\nCannot parse 'numba' version, expected in format 'x.yy.zz' - all integers"; warnings.warn(__warn_message)
         # Compilation of methods for single polynomial PSF calculation
-- 
2.43.0

