From c391fb264e93a1912f296b1bfdae5d8a460f7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 01/77] fix: sqrt_imag_dd returns the principal root for
 negative imaginary parts

---
 fluids/numerics/doubledouble.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index 666a104..4fa1997 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -272,6 +272,9 @@ def sqrt_imag_dd(xrr, xre, xcr, xce):
     zcr *= 0.5
     zce *= 0.5 # checks out
     zcr, zce = sqrt_dd(zcr, zce) # real part of answer
+    if xcr < 0.0:
+        # The principal root has the sign of the imaginary part of its argument
+        zcr, zce = -zcr, -zce
     return (zrr, zre, zcr, zce)
 
 def add_imag_dd(xrr, xre, xcr, xce, yrr, yre, ycr, yce):
-- 
2.43.0


From 5c5dc6e22c131d95bfed70f817e57de21cf03066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 02/77] fix: solve_3_direct and solve_4_direct fail on
 nonsingular matrices with a zero pivot

---
 fluids/numerics/__init__.py | 91 ++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 58 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..35d25ad 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3473,24 +3473,17 @@ def solve_3_direct(mat, vec):
     g, h, i = mat[2]
     j, k, l = vec
 
-    x0 = a*e
-    x1 = -b*d + x0
-    x2 = a*i - c*g
-    x3 = a*f - c*d
-    x4 = a*h - b*g
-    x5 = x1*x2 - x3*x4
-    x6 = 1.0/x5
-    x7 = b*x3 - c*x1
-    x8 = 1.0/x1
-    x9 = d*x4 - g*x1
-    x10 = j*x8
-    x11 = a*k
-    x12 = a*l
+    # Cofactor form; no division by pivots, which can be zero in a
+    # nonsingular matrix
+    x0 = e*i - f*h
+    x1 = f*g - d*i
+    x2 = d*h - e*g
+    x3 = 1.0/(a*x0 + b*x1 + c*x2)
 
     ans = [0.0]*3
-    ans[0] = x6*(-k*x8*(b*x5 + x4*x7) + l*x7 + x10*(x0*x5 + x7*x9)/a)
-    ans[1] = x6*(-x10*(d*x5 + x3*x9) + x11*x2 - x12*x3)
-    ans[2] = x6*(j*x9 + x1*x12 - x11*x4)
+    ans[0] = x3*(j*x0 + k*(c*h - b*i) + l*(b*f - c*e))
+    ans[1] = x3*(j*x1 + k*(a*i - c*g) + l*(c*d - a*f))
+    ans[2] = x3*(j*x2 + k*(b*g - a*h) + l*(a*e - b*d))
     return ans
 
 def solve_4_direct(mat, vec):
@@ -3499,49 +3492,31 @@ def solve_4_direct(mat, vec):
     i, j, k, l = mat[2]
     m, n, o, p = mat[3]
     q, r, s, t = vec
-    x0 = a*f
-    x1 = -b*e + x0
-    x2 = x1*(a*k - c*i)
-    x3 = a*g - c*e
-    x4 = a*j - b*i
-    x5 = x2 - x3*x4
-    x6 = a*h - d*e
-    x7 = a*n - b*m
-    x8 = x1*(a*p - d*m) - x6*x7
-    x9 = x1*(a*l - d*i) - x4*x6
-    x10 = x1*(a*o - c*m) - x3*x7
-    x11 = -x10*x9 + x5*x8
-    x12 = 1.0/x11
-    x13 = -b*x3 + c*x1
-    x14 = x13*x9
-    x15 = x5*(-b*x6 + d*x1)
-    x16 = -x14 + x15
-    x17 = 1.0/x5
-    x18 = s*x17
-    x19 = x10*x4 - x5*x7
-    x20 = 1.0/x1
-    x21 = x17*x20
-    x22 = e*x4 - i*x1
-    x23 = x5*(e*x7 - m*x1)
-    x24 = x10*x22
-    x25 = x23 - x24
-    x26 = q*x17
-    x27 = x20*x26
-    x28 = x3*x9
-    x29 = x5*x6
-    x30 = a*t
-    x31 = -x28 + x29
-    x32 = a*r
-    x33 = a*s*x1
-    x34 = x1*x30
-    x35 = -x23 + x24
+    # Laplace expansion by the 2x2 minors of the upper and lower halves; no
+    # division by pivots, which can be zero in a nonsingular matrix
+    u0 = a*f - e*b
+    u1 = a*g - e*c
+    u2 = a*h - e*d
+    u3 = b*g - f*c
+    u4 = b*h - f*d
+    u5 = c*h - g*d
+    v5 = k*p - o*l
+    v4 = j*p - n*l
+    v3 = j*o - n*k
+    v2 = i*p - m*l
+    v1 = i*o - m*k
+    v0 = i*n - m*j
+    x0 = 1.0/(u0*v5 - u1*v4 + u2*v3 + u3*v2 - u4*v1 + u5*v0)
+
     ans = [0.0]*4
-    ans[0] = x12*(-r*x21*(-x11*(-b*x5 + x13*x4) + x16*x19) + t*(x14 - x15)
-             - x18*(-x10*x16 + x11*x13) - x27*(-x11*(x0*x5 - x13*x22) + x16*x25)/a)
-    ans[1] = x12*(-a*x18*(-x10*x31 + x11*x3) - x21*x32*(-x11*x2 + x19*x31)
-             - x27*(x11*(e*x5 + x22*x3) + x25*x31) + x30*(x28 - x29))
-    ans[2] = x12*(-x17*x32*(x11*x4 + x19*x9) + x26*(x11*x22 + x35*x9) + x33*x8 - x34*x9)
-    ans[3] = x12*(-q*x35 - x10*x33 + x19*x32 + x34*x5)
+    ans[0] = x0*(q*(f*v5 - g*v4 + h*v3) + r*(c*v4 - b*v5 - d*v3)
+             + s*(n*u5 - o*u4 + p*u3) + t*(k*u4 - j*u5 - l*u3))
+    ans[1] = x0*(q*(g*v2 - e*v5 - h*v1) + r*(a*v5 - c*v2 + d*v1)
+             + s*(o*u2 - m*u5 - p*u1) + t*(i*u5 - k*u2 + l*u1))
+    ans[2] = x0*(q*(e*v4 - f*v2 + h*v0) + r*(b*v2 - a*v4 - d*v0)
+             + s*(m*u4 - n*u2 + p*u0) + t*(j*u2 - i*u4 - l*u0))
+    ans[3] = x0*(q*(f*v1 - e*v3 - g*v0) + r*(a*v3 - b*v1 + c*v0)
+             + s*(n*u1 - m*u3 - o*u0) + t*(i*u3 - j*u1 + k*u0))
     return ans
 
 def check_jacobian(x, j, func, jac_error_allowed=False):
-- 
2.43.0


From ca06c06fa062f00173aa534cec03136a1eacca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:16 +0000
Subject: [PATCH 03/77] fix: det of a 1x1 matrix returned the row instead of
 its entry

---
 fluids/numerics/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 9c8a329..329e8cb 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -152,7 +152,7 @@ def det(matrix):
     """
     size = len(matrix)
     if size == 1:
-        return matrix[0]
+        return matrix[0][0]
     elif size == 2:
         (a, b), (c, d) = matrix
         return a*d - c*b
-- 
2.43.0


From ec758696d6b64adb854d7be9fc33fded86503712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 04/77] fix: roots_quartic, roots_cubic_a1 and roots_cubic_a2
 fail or return wrong roots on degenerate polynomials

---
 fluids/numerics/polynomial_roots.py | 38 +++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/fluids/numerics/polynomial_roots.py b/fluids/numerics/polynomial_roots.py
index 737d972..1b06cba 100644
--- a/fluids/numerics/polynomial_roots.py
+++ b/fluids/numerics/polynomial_roots.py
@@ -78,28 +78,28 @@ def roots_quartic(a, b, c, d, e):
     x12 = x1*(x1*(-0.0625*x3 + 0.01171875*x4) + 0.25*x8) # 0.01171875 = 3/256
     x13 = x6*(x11 - x12)
     x14 = -.125*x10 + x13*third - x7/108.0
-    x15 = 2.0*(x14 + 0.0j)**(third)
-    x16 = csqrt(-x15 + x5)
-    x17 = 0.5*x16
-    x18 = -x17 + x2
     x19 = -four_thirds*x3
     x20 = 0.5*x4
-    x21 = x15 + x19 + x20
     x22 = 2.0*x8 + 2.0*x9
-    x23 = x22/x16
-    x24 = csqrt(x21 + x23)*0.5
     x25 = -x11 + x12 - twelfth*x6_2
-    x27 = (0.0625*x10 - x13*sixth + x7/216.0 + csqrt(0.25*x14*x14 + one_27*x25*x25*x25))**(third)
+    if x22 == 0.0:
+        # biquadratic after the shift by x2
+        x26 = csqrt(0.25*x6_2 - x11 + x12)
+        x35 = csqrt(-0.5*x6 - x26)
+        x39 = csqrt(-0.5*x6 + x26)
+        return ((x2 - x35), (x2 + x35), (x2 - x39), (x2 + x39))
+    x24 = 0.0625*x10 - x13*sixth + x7/216.0
+    x26 = csqrt(0.25*x14*x14 + one_27*x25*x25*x25)
+    # Avoid the square root cancelling the other term
+    x27 = (x24 - x26 if abs(x24 + x26) < 1e-5*abs(x24 - x26) else x24 + x26)**(third)
     x28 = 2.0*x27
-    x29 = two_thirds*x25/(x27)
+    x29 = two_thirds*x25/x27 if x27 != 0.0 else 0.0*x27
     x30 = csqrt(x28 - x29 + x5)
     x31 = 0.5*x30
     x32 = x2 - x31
     x33 = x19 + x20 - x28 + x29
     x34 = x22/x30
     x35 = csqrt(x33 + x34)*0.5
-    x36 = x17 + x2
-    x37 = csqrt(x21 - x23)*0.5
     x38 = x2 + x31
     x39 = csqrt(x33 - x34)*0.5
     return ((x32 - x35), (x32 + x35), (x38 - x39), (x38 + x39))
@@ -112,7 +112,13 @@ def roots_cubic_a1(b, c, d):
     t9 = c*c
     t16 = d*d
     t19 = csqrt(12.0*t9*c + 12.0*t2*d - 54.0*t4*d - 3.0*t1*t9 + 81.0*t16)
-    t22 = (-8.0*t2 + 36.0*t4 - 108.0*d + 12.0*t19)**third
+    t20 = -8.0*t2 + 36.0*t4 - 108.0*d
+    t21 = 12.0*t19
+    if t20 == 0.0 and t21 == 0.0: # triple root
+        root1 = -b*third + 0.0j
+        return (root1, root1, root1)
+    # Avoid the square root cancelling the other term
+    t22 = (t20 - t21 if abs(t20 + t21) < 1e-5*abs(t20 - t21) else t20 + t21)**third
     root1 = t22*sixth - 6.0*(c*third - t1*ninth)/t22 - b*third
     t28 = (c*third - t1*ninth)/t22
     t101 = -t22*twelfth + 3.0*t28 - b*third
@@ -131,8 +137,14 @@ def roots_cubic_a2(a, b, c, d):
     t14 = b*b
     t15 = t14*b
     t20 = csqrt(-18.0*a*b*c*d + 4.0*a*t10*c + 4.0*t15*d - t14*t10 + 27.0*t2*t3)
-    t31 = (36.0*c*b*a + 12.0*root_three*t20*a - 108.0*d*t2 - 8.0*t15)**third
+    t21 = 36.0*c*b*a - 108.0*d*t2 - 8.0*t15
+    t22 = 12.0*root_three*t20*a
     t32 = 1.0/a
+    if t21 == 0.0 and t22 == 0.0: # triple root
+        root1 = -b*t32*third + 0.0j
+        return (root1, root1, root1)
+    # Avoid the square root cancelling the other term
+    t31 = (t21 - t22 if abs(t21 + t22) < 1e-5*abs(t21 - t22) else t21 + t22)**third
     root1 = t31*t32*sixth - two_thirds*(3.0*a*c - t14)*t32/t31 - b*t32*third
     t33 = t31*t32
     t40 = (3.0*a*c - t14)*t32/t31
-- 
2.43.0


From 0c14eab2abee70c39ea1dcf6c8ba7e74c7d37026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 05/77] fix: best_bounding_bounds compares the best negative
 point with the wrong value

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 35d25ad..fe8970c 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2631,7 +2631,7 @@ def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None,
             if y_min_neg > fa:
                 fa, low = y_min_neg, x_min_neg
         else:
-            if y_min_pos > fb:
+            if y_min_neg > fb:
                 fb, high = y_min_neg, x_min_neg
 
     if fa*fb > 0:
-- 
2.43.0


From 53c9ccaa82f08479fac63942d27a3894caf40181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:37 +0000
Subject: [PATCH 06/77] fix: Bessel and incomplete elliptic fallbacks name
 functions mpmath does not have

---
 fluids/numerics/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index fe8970c..846d51c 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -6220,22 +6220,22 @@ else:
         return mpmath.besseli(*args, **kwargs)
     def i1(x):
         import mpmath
-        return mpmath.mpmath.besseli(1, x)
+        return mpmath.besseli(1, x)
     def i0(x):
         import mpmath
-        return mpmath.mpmath.besseli(0, x)
+        return mpmath.besseli(0, x)
     def k1(x):
         import mpmath
-        return mpmath.mpmath.besselk(1, x)
+        return mpmath.besselk(1, x)
     def k0(x):
         import mpmath
-        return mpmath.mpmath.besselk(0, x)
+        return mpmath.besselk(0, x)
     def ellipkinc(phi, m):
         import mpmath
-        return mpmath.mpmath.ellipf(phi, m)
+        return mpmath.ellipf(phi, m)
     def ellipeinc(phi, m):
         import mpmath
-        return mpmath.ellipe.ellipeinc(phi, m)
+        return mpmath.ellipe(phi, m)
 
 try:
     if FORCE_PYPY:  # noqa: F821
-- 
2.43.0


From d2ce2d46b820f3373eafd8927d3af53c802a6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:37 +0000
Subject: [PATCH 07/77] fix: bounds_clip_naive fails when there is no lower
 bound

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 846d51c..77b5cef 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5420,7 +5420,7 @@ else:
     quad = lazy_quad
 
 def bounds_clip_naive(x, low, high):
-    N = len(low)
+    N = len(x)
     if low is not None:
         for i in range(N):
             if x[i] < low[i]:
-- 
2.43.0


From 4d1a285c080e5d7778d5379a2f611cd174693726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:06 +0000
Subject: [PATCH 08/77] fix: derivative of a vector function ignores its limits

---
 fluids/numerics/__init__.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 77b5cef..5612d89 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -861,20 +861,19 @@ def derivative(func, x0, dx=1.0, n=1, args=(), order=3, scalar=True,
         for i in range(n):
             denominator *= dx
         denominator = 1.0/denominator
+    if upper_limit is not None:
+        max_x = x0 + (order - 1 - ho)*dx
+        if max_x > upper_limit:
+            x0 -= (max_x - x0)
+    if lower_limit is not None:
+        min_x = x0 + -ho*dx
+        if min_x < lower_limit:
+            x0 += (x0 - min_x)
+
+    # failed optimization strategy - plus changes some answers
+    # const = x0 - dx*ho
+    # tot += weights[k]*func(const + dx*k, *args, **kwargs)
     if scalar:
-        if upper_limit is not None:
-            max_x = x0 + (order - 1 - ho)*dx
-            if max_x > upper_limit:
-                x0 -= (max_x - x0)
-        if lower_limit is not None:
-            min_x = x0 + -ho*dx
-            if min_x < lower_limit:
-                x0 += (x0 - min_x)
-
-        # failed optimization strategy - plus changes some answers
-        # const = x0 - dx*ho
-        # tot += weights[k]*func(const + dx*k, *args, **kwargs)
-
         tot = 0.0
         for k in range(order):
             if weights[k] != 0.0:
-- 
2.43.0


From 543171a5a9dd6351da7f2d31a79c5e79ad1dada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 09/77] fix: nquad integrates the (value, error) tuples of its
 inner integrals

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 5612d89..b7a05ee 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5389,7 +5389,7 @@ def lazy_quad(f, a, b, args=(), epsrel=1.49e-08, epsabs=1.49e-8, **kwargs):
 
 
 def _call_nquad(x, func, range_funcs, epsrel, epsabs, *args):
-    return nquad(func, range_funcs, args=(x,) +args , epsrel=epsrel, epsabs=epsabs)
+    return nquad(func, range_funcs, args=(x,) +args , epsrel=epsrel, epsabs=epsabs)[0]
 
 def nquad(func, ranges, args=(), epsrel=1.48e-8, epsabs=1.48e-8):
     my_low, my_high = ranges[-1](*args)
-- 
2.43.0


From 44be7e20316c3e2adcb5614f722fdefc5c160583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 10/77] fix: central_diff_weights loses accuracy by inverting
 its integer matrix in floating point

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index b7a05ee..38a3436 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -819,7 +819,7 @@ def central_diff_weights(points, divisions=1):
     x = [[xi] for xi in range(-ho, ho+1)]
     X = []
     for xi in x:
-        line = [1.0] + [xi[0]**k for k in range(1, points)]
+        line = [1] + [xi[0]**k for k in range(1, points)]
         X.append(line)
     factor = product(range(1, divisions + 1))
 #    from scipy.linalg import inv
-- 
2.43.0


From 0283f75a9adbf19319ebae812e77e26593c58d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 11/77] fix: bisect, ridder and brenth lose the sign test when
 products of function values underflow

---
 fluids/numerics/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 38a3436..2d997b8 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2642,7 +2642,7 @@ def bisect(f, a, b, args=(), xtol=1e-12, rtol=2.220446049250313e-16, maxiter=100
     """Port of SciPy's C bisect routine."""
     fa = f(a, *args)
     fb = f(b, *args)
-    if fa*fb > 0.0:
+    if (fa > 0.0 and fb > 0.0) or (fa < 0.0 and fb < 0.0):
         raise ValueError("f(a) and f(b) must have different signs")
     elif fa == 0.0:
         return a
@@ -2656,7 +2656,7 @@ def bisect(f, a, b, args=(), xtol=1e-12, rtol=2.220446049250313e-16, maxiter=100
         dm *= 0.5
         xm = a + dm
         fm = f(xm, *args)
-        if fm*fa >= 0.0:
+        if (fm >= 0.0 and fa > 0.0) or (fm <= 0.0 and fa < 0.0):
             a = xm
         abs_dm = fabs(dm)
 
@@ -2678,7 +2678,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
 
     fa = f(a, *args)
     fb = f(b, *args)
-    if fa*fb > 0.0:
+    if (fa > 0.0 and fb > 0.0) or (fa < 0.0 and fb < 0.0):
         raise ValueError("f(a) and f(b) must have different signs")
     elif fa == 0.0:
         return a
@@ -2695,12 +2695,12 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         xn = xm - copysign((min(dm_abs_tol, dn_abs)), dn)
         fn = f(xn, *args)
 
-        if (fn*fm < 0.0):
+        if (fn < 0.0 and fm > 0.0) or (fn > 0.0 and fm < 0.0):
             a = xn
             fa = fn
             b = xm
             fb = fm
-        elif (fn*fa < 0.0):
+        elif (fn < 0.0 and fa > 0.0) or (fn > 0.0 and fa < 0.0):
             b = xn
             fb = fn
         else:
@@ -2732,7 +2732,7 @@ def brenth(f, xa, xb, args=(),
     else:
         fcur = fb
 
-    if fpre*fcur > 0.0 or isnan(fpre) or isnan(fcur):
+    if (fpre > 0.0 and fcur > 0.0) or (fpre < 0.0 and fcur < 0.0) or isnan(fpre) or isnan(fcur):
         raise NotBoundedError("f(a) and f(b) must have different signs")
     elif fpre == 0.0:
         return xa
@@ -2740,7 +2740,7 @@ def brenth(f, xa, xb, args=(),
         return xb
 
     for i in range(maxiter):
-        if fpre*fcur < 0.0:
+        if (fpre < 0.0 and fcur > 0.0) or (fpre > 0.0 and fcur < 0.0):
             xblk = xpre
             fblk = fpre
             spre = scur = xcur - xpre
-- 
2.43.0


From ec672b771a5a426e63b2836d7e6ac873f4dd850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 12/77] fix: ridder steps outside an interval shorter than its
 tolerance

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 2d997b8..7334453 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2691,7 +2691,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         fm = f(xm, *args)
         dn = copysign(1.0/sqrt(fm*fm - fa*fb), fb - fa)*fm*dm
 
-        dn_abs, dm_abs_tol = fabs(dn), fabs(dm) - 0.5*tol
+        dn_abs, dm_abs_tol = fabs(dn), max(fabs(dm) - 0.5*tol, 0.0)
         xn = xm - copysign((min(dm_abs_tol, dn_abs)), dn)
         fn = f(xn, *args)
 
-- 
2.43.0


From c9694b549a91fa29e91a1a5f3824664a4d8decac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:39 +0000
Subject: [PATCH 13/77] fix: halley ignores kwargs, fails at a limit without
 ytol and returns a non-root where the derivative is zero

---
 fluids/numerics/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 7334453..cd1a5c1 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3362,11 +3362,11 @@ def halley(func, x0, args=(), maxiter=100,
     hit_low, hit_high = 0, 0
 
     for it in range(maxiter):
-        fval, fder, fder2 = func(p0, *args)
+        fval, fder, fder2 = func(p0, *args, **kwargs)
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
-            if ytol is None or abs(fval) < ytol:
+            if ytol is not None and abs(fval) < ytol:
                 return p0
             else:
                 raise UnconvergedError(f"Derivative became zero; maxiter ({maxiter}) reached, value={p0:f} ")
@@ -3401,7 +3401,7 @@ def halley(func, x0, args=(), maxiter=100,
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return low
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3410,7 +3410,7 @@ def halley(func, x0, args=(), maxiter=100,
         if high is not None and p > high:
             hit_high += 1
             if p0 == high and hit_high > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return high
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
-- 
2.43.0


From eafe199986e8e35fe6f394431e7b046de6b835b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 14/77] fix: secant's search for additional guesses can leave
 the limits

---
 fluids/numerics/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index cd1a5c1..cf538b8 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2957,6 +2957,11 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                         if not (isnan(q1) or isinf(q1)) and temp_q*q0 < 0.0:
                             # print('Bisected the problem, restarting with new point')
                             break
+                    # No sign change found; the last candidate may not be within the limits
+                    if low is not None and p < low:
+                        p = low
+                    if high is not None and p > high:
+                        p = high
 
                     did_additional_guesses = True
                 else:
-- 
2.43.0


From 91dacda53e409ff2e7cd117d1e6cd3009619182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 15/77] fix: secant reports convergence when its additional
 guesses lead back to the same point

---
 fluids/numerics/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index cf538b8..0149d65 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2962,6 +2962,9 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                         p = low
                     if high is not None and p > high:
                         p = high
+                    if p == p1:
+                        # Nothing new to continue from; this is not convergence
+                        raise SamePointError("Convergence failed - previous points are the same", q1=q1, p1=p1, q0=q0, p0=p0)
 
                     did_additional_guesses = True
                 else:
-- 
2.43.0


From d8b3dfc2c39109e732e085fa38588ad2a5ac03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:44 +0000
Subject: [PATCH 16/77] fix: nelder_mead ignores args

---
 fluids/numerics/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 0149d65..00cbede 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5495,7 +5495,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
 
     for k in range(N + 1):
-        fsim[k] = func(sim[k])
+        fsim[k] = func(sim[k], *args)
 
 #     print(sim, fsim)
     sim, fsim = sort_fun(sim, fsim)
@@ -5541,13 +5541,13 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
         if has_bounds:
             xr = bounds_clip_naive(xr, low, high)
 
-        fxr = func(xr)
+        fxr = func(xr, *args)
         if fxr < fsim[0]:
 #            xe = rhochip1*xbar - rhochi*sim_last # numba: uncomment
             xe = [rhochip1*xbar[i] - rhochi*sim_last[i] for i in range(N)] # numba: delete
             if has_bounds:
                 xe = bounds_clip_naive(xe, low, high)
-            fxe = func(xe)
+            fxe = func(xe, *args)
             if fxe < fxr:
                 sim[-1] = xe
                 fsim[-1] = fxe
@@ -5564,7 +5564,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xc = [rhopsip1*xbar[i] - rhopsi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xc = bounds_clip_naive(xc, low, high)
-                    fxc = func(xc)
+                    fxc = func(xc, *args)
 
                     sim[-1] = xc
                     fsim[-1] = fxc
@@ -5574,7 +5574,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xcc = [onempsi*xbar[i] + psi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xcc = bounds_clip_naive(xcc, low, high)
-                    fxcc = func(xcc)
+                    fxcc = func(xcc, *args)
                     sim[-1] = xcc
                     fsim[-1] = fxcc
 
-- 
2.43.0


From 2c851003fb97505cc204c4627198dd4ecb593bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 17/77] fix: fixed_point_aitken and fixed_point_gdem return an
 unevaluated accelerated point

---
 fluids/numerics/__init__.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 00cbede..c7ec03a 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3968,12 +3968,6 @@ def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             for v in fcur:
                 if isinf(v) or isnan(v):
                     raise ValueError("Cannot continue - math error in function value")
-        if (iteration % acc_frequency) == 0:
-            x1, x2 = all_guesses[-2], all_guesses[-3]
-            dx = aitken_delta_squared_accelerate(x, x1, x2, acc_max_change_ratio)
-            x = [xi + dxi*acc_damping for xi, dxi in zip(x, dx)]
-        else:
-            x = [xi - fi*damping for xi, fi in zip(x, fcur)]
         err1 = 0.0
         for v in fcur:
             err1 += abs(v)
@@ -3987,6 +3981,12 @@ def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
         if err1 >= err0 and require_progress:
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
+        if ((iteration - 1) % acc_frequency) == 0:
+            x1, x2 = all_guesses[-2], all_guesses[-3]
+            dx = aitken_delta_squared_accelerate(x, x1, x2, acc_max_change_ratio)
+            x = [xi + dxi*acc_damping for xi, dxi in zip(x, dx)]
+        else:
+            x = [xi - fi*damping for xi, fi in zip(x, fcur)]
 
     if xtol is not None and norm2(fcur) > xtol:
         raise UnconvergedError("Failed to converge")
@@ -4070,13 +4070,6 @@ def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             for v in fcur:
                 if isinf(v) or isnan(v):
                     raise ValueError("Cannot continue - math error in function value")
-        if (iteration % acc_frequency) == 0:
-            x1, x2, x3 = all_guesses[-2], all_guesses[-3], all_guesses[-4]
-            dx = gdem(x, x1, x2, x3, acc_max_change_ratio)
-            # print(np.array([xi - fi*acc_damping for xi, fi in zip(x, fcur)])/[xi + dxi*acc_damping for xi, dxi in zip(x, dx)])
-            x = [xi + dxi*acc_damping for xi, dxi in zip(x, dx)]
-        else:
-            x = [xi - fi*damping for xi, fi in zip(x, fcur)]
         err1 = 0.0
         for v in fcur:
             err1 += abs(v)
@@ -4090,6 +4083,13 @@ def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
         if err1 >= err0 and require_progress:
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
+        if ((iteration - 1) % acc_frequency) == 0:
+            x1, x2, x3 = all_guesses[-2], all_guesses[-3], all_guesses[-4]
+            dx = gdem(x, x1, x2, x3, acc_max_change_ratio)
+            # print(np.array([xi - fi*acc_damping for xi, fi in zip(x, fcur)])/[xi + dxi*acc_damping for xi, dxi in zip(x, dx)])
+            x = [xi + dxi*acc_damping for xi, dxi in zip(x, dx)]
+        else:
+            x = [xi - fi*damping for xi, fi in zip(x, fcur)]
 
     if xtol is not None and norm2(fcur) > xtol:
         raise UnconvergedError("Failed to converge")
-- 
2.43.0


From b807c68d626944c94fff0f2309987a4de39c7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 18/77] fix: fixed_point_anderson reports convergence when it
 runs out of iterations

---
 fluids/numerics/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index c7ec03a..7506389 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4762,7 +4762,6 @@ def fixed_point_anderson(
         x = x_acc
 
     # Check final convergence
-    x_err = max(abs((a - b) / abs(b)) for a, b in zip(x_acc, x))
     if xtol is not None and x_err > xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {x_err}")
     if ytol is not None and err1 > ytol:
-- 
2.43.0


From 1dcdf5915f735c0e7f79e20eb87d822a25d30d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 19/77] fix: SolverInterface hands lists to a numpy scalar
 objective when differentiating it

---
 fluids/numerics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 7506389..7c37337 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5834,7 +5834,7 @@ class SolverInterface:
                 x = np.array(x)
             # Use the correct objf based on numpy/python preferences
             if self.objf_numpy:
-                objf = self.objf_counting
+                objf = self.objf_counting if self.hessian_numpy else self.objf_numpy_return_python_scalar
             else:
                 objf = self.objf_python_return_numpy if self.hessian_numpy else self.objf_counting
 
@@ -5913,7 +5913,7 @@ class SolverInterface:
 
             # Use the correct objf based on numpy/python preferences
             if self.objf_numpy:
-                objf = self.objf_counting
+                objf = self.objf_counting if self.jacobian_numpy else self.objf_numpy_return_python_scalar
             else:
                 objf = self.objf_python_return_numpy if self.jacobian_numpy else self.objf_counting
 
-- 
2.43.0


From a19408b81a2358bcfb4c6fe9c39a6667d7467189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:36 +0000
Subject: [PATCH 20/77] fix: bend_rounded's Crane method rejects every bend
 given by its radius

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..f367ebc 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1511,7 +1511,7 @@ def bend_rounded(Di: float, angle: float, fd: float | None=None, rc: float | Non
         bend_diameters2 = bend_diameters
         rc = Di*bend_diameters2
     else:
-        bend_diameters2 = bend_diameters if bend_diameters is not None else 5.0
+        bend_diameters2 = bend_diameters if bend_diameters is not None else rc/Di
 
     if method == "Rennels":
         angle = radians(angle)
-- 
2.43.0


From ef16c9257d29dc85c1ff947189184ee17342381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:36 +0000
Subject: [PATCH 21/77] fix: diffuser_conical_Crane returns a negative loss
 coefficient when given the length

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index f367ebc..1b0f5b4 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2628,7 +2628,7 @@ def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
         angle_deg = angle
     elif l is not None:
         if l != 0.0:
-            angle_rad = 2.0*atan((Di1-Di2)/(2.0*l))
+            angle_rad = 2.0*atan((Di2-Di1)/(2.0*l))
             angle_deg = degrees(angle_rad)
         else:
             angle_rad = pi
-- 
2.43.0


From c789b695148daebee3d2ed0c027e9bfdb91ccd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 22/77] fix: size_control_valve_l without full output fails
 when its fittings iteration does not converge

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 5583536..77f9dc3 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -742,11 +742,11 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     C = Q/N1/FP*sqrt(rho/rho0/dP)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
                     C = iterate_piping_turbulent_l(C, iterations+1)
-                if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
-                    ans["warning"] = "Not converged in inner loop"
                 if full_output:
                     ans["FLP"] = FLP
                     ans["FP"] = FP
+                    if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
+                        ans["warning"] = "Not converged in inner loop"
                 return C
 
             C = iterate_piping_turbulent_l(Ci, 0)
-- 
2.43.0


From e79187b3bed1c0e422148853dfe8133198db520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:36 +0000
Subject: [PATCH 23/77] fix: allow_choked=False is ignored when sizing a
 control valve with fittings

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 77f9dc3..9f551b1 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -734,7 +734,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
 
                 FLP = FL*1.0/sqrt(1 + FL**2/N2*loss_upstream*(Ci/d**2)**2)
                 choked = is_choked_turbulent_l(dP, P1, Psat, FF, FLP=FLP, FP=FP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 4
                     C = Q/N1/FLP*sqrt(rho/rho0/(P1-FF*Psat))
                 else:
@@ -931,7 +931,7 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                 loss_upstream = loss_coefficient_piping(d, D1)
                 xTP = xT/FP**2/(1 + xT*loss_upstream/N5*(Ci/d**2)**2)
                 choked = is_choked_turbulent_g(x, Fgamma, xTP=xTP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 17a
                     C = Q/(N9*FP*P1*Y)*sqrt(MW*T*Z/xTP/Fgamma)
                 else:
-- 
2.43.0


From 26f32148772a064520e38b6e0c89d332495cabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:40 +0000
Subject: [PATCH 24/77] fix: nozzle_expansibility at k=1 uses the diameter
 ratio it is given

---
 fluids/flow_meter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 3893cab..df47540 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -1440,8 +1440,8 @@ def nozzle_expansibility(D: float, Do: float, P1: float, P2: float, k: float, be
         val= sqrt(term1*term2*term3)
         print(simplify(limit((term1*term2*term3), k, 1)))
         """
-        limit_val = (P1*P2**2*(-D**4 + Do**4)*log(P2/P1)/(D**4*P1**3
-                    - D**4*P1**2*P2 - Do**4*P1*P2**2 + Do**4*P2**3))
+        limit_val = (P1*P2**2*(-1.0 + beta4)*log(P2/P1)/(P1**3
+                    - P1**2*P2 - beta4*P1*P2**2 + beta4*P2**3))
         return sqrt(limit_val)
 
     term1 = k*tau**(2.0/k)/(k - 1.0)
-- 
2.43.0


From 391da87b5fd518abf7dc3ab48cc304d13ed346ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 25/77] fix: API520_A_l fails when neither Kv nor mu is given

---
 fluids/safety_valve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/safety_valve.py b/fluids/safety_valve.py
index 91c727a..1291ce5 100644
--- a/fluids/safety_valve.py
+++ b/fluids/safety_valve.py
@@ -1084,6 +1084,8 @@ def API520_A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0,
         v = (Q/60000.0)/A0
         Re = rho*v*D/mu
         Kv = API520_Kv(Re, edition)
+    elif Kv is None:
+        Kv = 1.0
     P1 = P1*1e-3 # Pa to kPa
     P2 = P2*1e-3 # Pa to kPa
     A = 11.78*Q*sqrt(G1/(P1-P2))/(Kd*Kw*Kc*Kv)
-- 
2.43.0


From 2325f400074e55acf08c2dfef2326059e4c54146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:32 +0000
Subject: [PATCH 26/77] fix: circle_segment_h_from_A returns the radius for
 segments above half the circle

---
 fluids/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..56608c8 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1876,6 +1876,12 @@ def circle_segment_h_from_A(A: float, D: float) -> float:
     if A == 0.0:
         return 0.0
     R = 0.5*D
+    A_circle = pi*R*R
+    if A > 0.5*A_circle:
+        # Above the centerline the empty segment is the one that can be solved for
+        if isclose(A, A_circle, rel_tol=1e-14):
+            return D
+        return D - circle_segment_h_from_A(A_circle - A, D)
     return newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
                   args=(R, A), xtol=1e-12, bisection=True)
 
-- 
2.43.0


From 46dd4517b48b8028e33758f028f249369bd6c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 27/77] fix: SA_partial_horiz_torispherical_head recurses
 forever at the dish-knuckle junction

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 56608c8..75a854d 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -2448,7 +2448,7 @@ def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float)
 
     limit_1 = k*D*(1.0 - sin_alpha)
 
-    if h < limit_1:
+    if h < limit_1 or isclose(h, limit_1, rel_tol=1e-13):
         SA = quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, sqrt(2*k*D*h - h*h), args=(t2, s, c1))[0]
         return 2.0*SA
     elif limit_1 < h <= R:
-- 
2.43.0


From 1c68ebd27cb9526a99cd1a8371ff3f6424246a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 28/77] fix: TANK.h_from_V brenth raises or returns wrong
 heights for vertical tanks with a bottom head

---
 fluids/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 75a854d..8e25a77 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -132,7 +132,7 @@ from __future__ import annotations
 from cmath import sqrt as csqrt
 from math import acos, acosh, asin, atan, cos, degrees, isclose, log, log1p, pi, radians, sin, sqrt, tan
 
-from fluids.numerics import cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
+from fluids.numerics import brenth, cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
 
 __all__: list[str] = [
     "TANK",
@@ -3762,7 +3762,7 @@ class TANK:
             return self.h_from_V_cheb(V)
         elif method == "brenth":
             to_solve = lambda h : self.V_from_h(h, method="full") - V
-            return secant(to_solve, x0=0.5*self.h_max, low=0, high=self.h_max, bisection=True)
+            return brenth(to_solve, 0.0, self.h_max)
         else:
             raise ValueError("Allowable methods are 'full' or 'chebyshev', "
                             "or 'brenth'.")
-- 
2.43.0


From 6bf4aa05f9209c6571bc8ac6bc694efb8e081a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 29/77] fix: TANK.from_two_specs fails without h even when no
 specification needs it

---
 fluids/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 8e25a77..6ff3683 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3142,7 +3142,8 @@ def tank_from_two_specs_err(guess: list[float], spec0: float, spec1: float, spec
          sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k,
          sideA_a_ratio=sideA_a_ratio, sideB_a_ratio=sideB_a_ratio)
     # ensure h is always under the top
-    h = min(h, obj.h_max)
+    if h is not None:
+        h = min(h, obj.h_max)
 
     if spec0_name == "V":
         err0 = obj.V_total - spec0
-- 
2.43.0


From bacbeae003e0e57cee3a4e9507e92d981da63732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 30/77] fix: AirCooledExchanger ignored pitch_ratio unless
 pitch was also given

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 6ff3683..bc0a084 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4958,7 +4958,7 @@ class AirCooledExchanger:
         self.fan_diameter = fan_diameter
 
         if pitch_ratio is not None:
-            if pitch is not None:
+            if pitch is None:
                 pitch = self.tube_diameter*pitch_ratio
             else:
                 raise ValueError("Specify only one of `pitch_ratio` or `pitch`")
-- 
2.43.0


From cbe1f7e1e260e6a51ea3b782d395094e7a3cd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 31/77] fix: HelicalCoil given N and pitch accepted colliding
 tubes

---
 fluids/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index bc0a084..67b9c58 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4060,6 +4060,8 @@ outer diameter={self.Dt} m, number of turns={self.N}, pitch={self.pitch} m"
             N_final: float = N
             pitch_final: float = pitch
             H_final: float = N*pitch
+            if pitch_final < self.Dt:
+                raise ValueError("Pitch is too small - tubes are colliding; pitch must be larger than tube diameter.")
         elif N is not None and H is not None:
             N_final = N
             H_final = H
-- 
2.43.0


From 274aaa8a1cee65970001eaa5d6def43996d02e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 32/77] fix: PlateExchanger repr raises when optional
 dimensions are not given

---
 fluids/geometry.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 67b9c58..06b4a68 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4257,7 +4257,7 @@ chevron_angles={} degrees, area enhancement factor={:g}".format(self.a, self.wav
             s += f", width={self.width:g} m, length={self.length:g} m"
         if self.d_port:
             s += f", port diameter={self.d_port:g} m"
-        if self.plates:
+        if self.plates and self.width and self.length:
             s += f", heat transfer area={self.A_heat_transfer:g} m^2, {self.plates:g} plates>"
         else:
             s += ">"
@@ -4300,16 +4300,11 @@ chevron_angles={} degrees, area enhancement factor={:g}".format(self.a, self.wav
         self.D_eq = 4*self.amplitude # Equivalent diameter for inter-plate spacing
         self.D_hydraulic = 4*self.amplitude/self.plate_enlargement_factor # Get better results when correlations use this
 
-        if width is not None:
-            self.width = width
-        if length is not None:
-            self.length = length
-        if thickness is not None:
-            self.thickness = thickness
-        if d_port is not None:
-            self.d_port = d_port
-        if plates is not None:
-            self.plates = plates
+        self.width = width
+        self.length = length
+        self.thickness = thickness
+        self.d_port = d_port
+        self.plates = plates
 
         if d_port is not None and length is not None:
             self.length_port = length + d_port # port center to port center along the direction of flow
-- 
2.43.0


From b3a7d4eb1b293e5199ba4e9b330f1bffd38de36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 33/77] fix: PSDGatesGaudinSchuhman raises AttributeError when
 d_max is given

---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cdd0d91..029857f 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2132,7 +2132,7 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
 
         if d_max is not None:
             # PDF above this is zero
-            self.d_excessive = self.d_max
+            self.d_excessive = d_max
         else:
             self.d_excessive = self.d_characteristic
         if d_min is not None:
-- 
2.43.0


From 34af3aeefef17eff8014c2188836d8df1ea15042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 34/77] fix: Gates-Gaudin-Schuhman basis integral fails at zero
 and grows past the largest particle

---
 fluids/particle_size_distribution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 029857f..c75dc56 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -912,6 +912,11 @@ def pdf_Gates_Gaudin_Schuhman_basis_integral(d: float, d_characteristic: float,
     >>> pdf_Gates_Gaudin_Schuhman_basis_integral(d=2E-4, d_characteristic=1E-3, m=2.3, n=-3)
     -10136984887.543015
     """
+    if d > d_characteristic:
+        # The density is zero past the largest particle
+        d = d_characteristic
+    if d == 0.0 and m + n > 0.0:
+        return 0.0
     return m/(m+n)*d**n*(d/d_characteristic)**m
 
 
-- 
2.43.0


From abbc10c4da211beff7773bd6a18de887c0291dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 35/77] fix: truncated particle size distributions are not
 normalized for other orders

---
 fluids/particle_size_distribution.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index c75dc56..c0a3b7e 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1311,6 +1311,10 @@ class ParticleSizeDistributionContinuous:
         ans = self._pdf(d=d)
         if n is not None and n != self.order:
             power = n - self.order
+            if self.truncated:
+                if d < self.d_min or d > self.d_max:
+                    return 0.0
+                return max(d**power*ans/self._pdf_basis_integral_definite(d_min=self.d_min, d_max=self.d_max, n=power), 0.0)
             numerator = d**power*ans
             denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
             ans = numerator/denominator
@@ -1361,6 +1365,14 @@ class ParticleSizeDistributionContinuous:
             power = n - self.order
             # One of the pdf_basis_integral calls could be saved except for
             # support for numerical integrals
+            if self.truncated:
+                if d <= self.d_min:
+                    return 0.0
+                elif d >= self.d_max:
+                    return 1.0
+                numerator = self._pdf_basis_integral_definite(d_min=self.d_min, d_max=d, n=power)
+                denominator = self._pdf_basis_integral_definite(d_min=self.d_min, d_max=self.d_max, n=power)
+                return max(numerator/denominator, 0.0)
             numerator = self._pdf_basis_integral_definite(d_min=0.0, d_max=d, n=power)
             denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
             ans =  max(numerator/denominator, 0.0)
-- 
2.43.0


From d7181f2189d521f628faed96808dd626c978ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 36/77] fix: interpolated particle size distribution
 extrapolates outside its sizes

---
 fluids/particle_size_distribution.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index c0a3b7e..fc114c3 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2348,12 +2348,17 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
 
 
     def _pdf(self, d: float) -> float:
+        if d < self.ds[0] or d > self.d_excessive:
+            return 0.0
         return max(0.0, float(self.pdf_spline(d)))
 
     def _cdf(self, d: float) -> float:
         if d > self.d_excessive:
             # Handle spline values past 1 that decrease to zero
             return 1.0
+        if d < self.ds[0]:
+            # Nor extrapolate below the smallest size
+            return 0.0
         return max(0.0, float(self.cdf_spline(d)))
 
     def _pdf_basis_integral(self, d: float, n: float) -> float:
@@ -2368,6 +2373,8 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             basis_integral = ds**float(n)*pdf_vals
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
-                self.basis_integrals[int(n)] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
-        return max(float(self.basis_integrals[int(n)](d)), 0.0)
+                self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+        # The integral is constant outside the sizes
+        d = min(max(d, self.ds[0]), self.d_excessive)
+        return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From da5bf44b4e898ca4f0cb314e0ddb4497c10d7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 37/77] fix: ParticleSizeDistribution given a cdf at points
 drops its first fraction

---
 fluids/particle_size_distribution.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index fc114c3..514715e 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1867,11 +1867,7 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
 
         if cdf:
             # Convert a cdf to fraction set
-            if len(fractions)+1 == len(ds):
-                fractions = [fractions[0]] + diff(fractions)
-            else:
-                fractions_diff = diff(fractions)
-                fractions = [0.0] + fractions_diff
+            fractions = [fractions[0]] + diff(fractions)
         elif sum(fractions) != 1.0:
             # Normalize flow inputs
             tot_inv = 1.0/sum(fractions)
-- 
2.43.0


From 52caf9ac43df98ab1dc066186fcfa6723549dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 38/77] fix: particle size densities raise ZeroDivisionError at
 zero diameter

---
 fluids/particle_size_distribution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 514715e..121f358 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -816,7 +816,9 @@ def pdf_Gates_Gaudin_Schuhman(d: float, d_characteristic: float, m: float) -> fl
        Vereecken. "Particle Size Distribution Models, Their Characteristics and
        Fitting Capability." Journal of Hydrology 529 (October 1, 2015): 872-89.
     """
-    if d <= d_characteristic:
+    if d == 0.0 and m > 1.0:
+        return 0.0
+    elif d <= d_characteristic:
         return m/d*(d/d_characteristic)**m
     else:
         return 0.0
@@ -1309,7 +1311,8 @@ class ParticleSizeDistributionContinuous:
            Generation. CRC Press, 2006.
         """
         ans = self._pdf(d=d)
-        if n is not None and n != self.order:
+        # A zero density is zero in any order, including at zero diameter
+        if n is not None and n != self.order and ans != 0.0:
             power = n - self.order
             if self.truncated:
                 if d < self.d_min or d > self.d_max:
-- 
2.43.0


From 10fe9e5f3318737db53157e2a954e52a7ef373ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 39/77] fix: mean of inverse diameter over a size class raises
 ZeroDivisionError

---
 fluids/particle_size_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 121f358..f0dbd01 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2013,6 +2013,8 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
         """
         if self.size_classes:
             rt = power + 1
+            if rt == 0:
+                return log(self.ds[i+1]/self.ds[i])/(self.ds[i+1] - self.ds[i])
             return ((self.ds[i+1]**rt - self.ds[i]**rt)/((self.ds[i+1] - self.ds[i])*rt))
         else:
             return self.ds[i]**power
-- 
2.43.0


From fa88a0e4695fc069a335c3850ac71dbd7ec87953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 40/77] fix: nearest_pipe no longer skips a pipe size given its
 own diameter

---
 fluids/piping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 10a27f5..197897c 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -728,9 +728,9 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
        Line Pipe." ASTM International. https://doi.org/10.1520/F2619_F2619M-20.
     """
     if Di is not None:
-        Di *= 1E3
+        Di = round(Di*1E3, 9) # mm; rounding keeps a catalogue size from missing itself
     if Do is not None:
-        Do *= 1E3
+        Do = round(Do*1E3, 9)
 
     # If accidentally given an numerical schedule, convert it to a string
     if isinstance(schedule, (int, float)):
-- 
2.43.0


From 170bab27fe9225ceec14b5503c111ec12aeebeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 41/77] fix: angle of incidence of a surface facing the sun no
 longer raises

---
 fluids/optional/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/optional/irradiance.py b/fluids/optional/irradiance.py
index 89bedb1..f0d4551 100644
--- a/fluids/optional/irradiance.py
+++ b/fluids/optional/irradiance.py
@@ -60,7 +60,8 @@ def aoi_projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
 def aoi(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
     projection = aoi_projection(surface_tilt, surface_azimuth,
                                 solar_zenith, solar_azimuth)
-    aoi_value = degrees(acos(projection))
+    # rounding may leave the projection slightly outside the domain of acos
+    aoi_value = degrees(acos(max(-1.0, min(1.0, projection))))
     return aoi_value
 
 def poa_components(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
-- 
2.43.0


From 3ec06ce0e25553518ef069dff402162fc03f83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:14 +0000
Subject: [PATCH 42/77] fix: sunrise_sunset works with time zones other than
 pytz's

---
 fluids/atmosphere.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/atmosphere.py b/fluids/atmosphere.py
index dc8e3f7..2ab0287 100644
--- a/fluids/atmosphere.py
+++ b/fluids/atmosphere.py
@@ -874,9 +874,9 @@ def sunrise_sunset(moment: datetime.datetime, latitude: float, longitude: float)
     sunset = datetime.datetime.fromtimestamp(sunset, datetime.timezone.utc).replace(tzinfo=None)
 
     if moment.tzinfo is not None:
-        sunrise = moment.tzinfo.fromutc(sunrise)
-        sunset = moment.tzinfo.fromutc(sunset)
-        transit = moment.tzinfo.fromutc(transit)
+        sunrise = sunrise.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
+        sunset = sunset.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
+        transit = transit.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
     return sunrise, sunset, transit
 
 
-- 
2.43.0


From 35ae0937de58dbcbe538b930827a7d48974ea56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 43/77] fix: Mandhane_Gregory_Aziz_regime scales the gas
 viscosity by that of air

---
 fluids/two_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index 1d7c92c..a6732ab 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -3173,7 +3173,7 @@ def Mandhane_Gregory_Aziz_regime(m: float, x: float, rhol: float, rhog: float, m
     Vsl, Vsg = Vsl/0.3048, Vsg/0.3048
 #    X1 = (rhog/0.0808)**0.333 * (rhol*72.4/62.4/sigma)**0.25 * (mug/0.018)**0.2
 #    Y1 = (rhol*72.4/62.4/sigma)**0.25 * (mul/1.)**0.2
-    X1 = (rhog/1.294292)**0.333 * sqrt(sqrt(rhol*0.0724/(999.552*sigma))) * (mug*1.8E5)**0.2
+    X1 = (rhog/1.294292)**0.333 * sqrt(sqrt(rhol*0.0724/(999.552*sigma))) * (mug/1.8E-5)**0.2
     Y1 = sqrt(sqrt(rhol*0.0724/999.552/sigma)) * (mul*1E3)**0.2
 
     if Vsl < 14.0*Y1:
-- 
2.43.0


From e1b3858198f7ec178b880cbb497cb495c17d8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 44/77] fix: size_tee's mixing exponent for one strong side
 stream starts from 1.33

---
 fluids/mixing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/mixing.py b/fluids/mixing.py
index d5ab3f4..939bd0f 100644
--- a/fluids/mixing.py
+++ b/fluids/mixing.py
@@ -300,7 +300,7 @@ def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_di
         if B < 0.7:
             E = 1.33
         else:
-            E = 1/33. + 0.95*log(B/0.7)
+            E = 1.33 + 0.95*log(B/0.7)
     elif n == 2:
         if B < 0.8:
             E = 1.44
-- 
2.43.0


From 1aef326097f37692e4da68e2d83a17f6a7821f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 45/77] fix: isothermal_gas finds the upstream pressure when
 its first solver fails

---
 fluids/compressible.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 65c87e7..6e84774 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -776,7 +776,9 @@ def T_stagnation_ideal(T: float, V: float, Cp: float) -> float:
     return T + 0.5*V*V/Cp
 
 def isothermal_gas_err_P1(P1: float, fd: float, rho: float, P2: float, L: float, D: float, m: float) -> float:
-    return m - isothermal_gas(rho, fd, P1=P1, P2=P2, L=L, D=D)
+    # No choking check: the upper end of the bracket is the choked state itself,
+    # on either side of which rounding may place it
+    return m - sqrt(0.0625*pi*pi*D**4*rho/(P1*(fd*L/D + 2.0*log(P1/P2)))*(P1*P1 - P2*P2))
 
 def isothermal_gas_err_P2(P2: float, rho: float, fd: float, P1: float, L: float, D: float, m: float) -> float:
     return m - isothermal_gas(rho, fd, P1=P1, P2=P2, L=L, D=D)
@@ -921,7 +923,7 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             try:
                 return brenth(isothermal_gas_err_P1, P2, Pcf, args=(fd, rho, P2, L, D, m))
             except:
-                m_max = isothermal_gas(rho, fd, P1=Pcf, P2=P2, L=L, D=D)  # numba: delete
+                m_max = -isothermal_gas_err_P1(Pcf, fd, rho, P2, L, D, 0.0)  # numba: delete
                 raise ValueError(f"The desired mass flow rate of {m:f} kg/s cannot " # numba: delete
                                  "be achieved with the specified downstream pressure; the maximum flow rate is " # numba: delete
                                  f"{m_max:f} kg/s at an upstream pressure of {Pcf:f} Pa") # numba: delete
-- 
2.43.0


From 83711cc02894a826e9cf35ed7900539dd873a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 46/77] fix: isothermal critical pressure for long pipes, where
 exp(-(fd*L/D+1)) underflows

---
 fluids/compressible.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 6e84774..3a9e087 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -560,6 +560,13 @@ def P_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float
        2005.
     """
     # Correct branch of lambertw found by trial and error
+    x = (D + L*fd)/D
+    if x > 700.0:
+        # exp(-x) underflows; solve for the lower branch from its logarithm
+        w = x
+        for _ in range(8):
+            w = x + log(w)
+        return P/sqrt(w)
     lambert_term = float((lambertw(-exp((-D - L*fd)/D), -1)).real)
     return P*exp((D*(lambert_term + 1.0) + L*fd)/(2.0*D))
 
@@ -573,6 +580,13 @@ def P_upstream_isothermal_critical_flow(P: float, fd: float, D: float, L: float)
     ... L=1000., D=0.5)
     1000000.00000
     """
+    x = (fd*L + D)/D
+    if x > 700.0:
+        # exp(-x) underflows; solve for the lower branch from its logarithm
+        w = x
+        for _ in range(8):
+            w = x + log(w)
+        return P*sqrt(w)
     lambertw_term = float(lambertw(-exp(-(fd*L+D)/D), -1).real)
     return exp(-0.5*(D*lambertw_term+fd*L+D)/D)*P
 
-- 
2.43.0


From a9c9a11d4fc80e1bfb7503bc33282bfa8a552604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 47/77] fix: bracket the nozzle and mixing diameters of
 liquid_jet_pump_ancillary by the physical range

---
 fluids/jet_pump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index a22c2e7..cc1d58c 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -184,13 +184,13 @@ def liquid_jet_pump_ancillary(rhop: float, rhos: float, Kp: float, Ks: float, d_
         def err(d_nozzle):
             return P1 - liquid_jet_pump_ancillary(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, d_nozzle=d_nozzle, d_mixing=d_mixing, Qp=Qp, Qs=Qs,
                               P1=None, P2=P2)
-        return brenth(err, 1E-9, d_mixing*20)
+        return brenth(err, 1E-9, d_mixing*(1.0 - 1E-9))
     elif d_mixing is None and d_nozzle is not None and P1 is not None and P2 is not None and Qp is not None and Qs is not None:
         def err(d_mixing):
             return P1 - liquid_jet_pump_ancillary(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, d_nozzle=d_nozzle, d_mixing=d_mixing, Qp=Qp, Qs=Qs,
                               P1=None, P2=P2)
         try:
-            return brenth(err, 1E-9, d_nozzle*20)
+            return brenth(err, d_nozzle*(1.0 + 1E-9), d_nozzle*20)
         except:
             return secant(err, d_nozzle*2)
     else:
-- 
2.43.0


From 51d672fc2dbfe55059a0b9a851bc00439d7caad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 48/77] fix: build_solve_pychebfun did not return when the
 solution has fewer roots than find_roots

---
 fluids/optional/pychebfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 7411281..434446a 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -85,7 +85,7 @@ def build_solve_pychebfun(f, goal, domain, N=15, N_max=100, find_roots=2):
     fun = build_pychebfun(cached_fun, domain, N=N)
     roots = (fun - goal).roots()
 
-    while (len(roots) < find_roots and len(fun._values) < N_max):
+    while (len(roots) < find_roots and N < N_max):
         N *= 2
         fun = build_pychebfun(cached_fun, domain, N=N)
         roots = (fun - goal).roots()
-- 
2.43.0


From 30e26294e14c0e4133d8be079b0836f3ba1e9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 49/77] fix: roots of a linear Chebfun

---
 fluids/optional/pychebfun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 434446a..da75096 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -544,6 +544,12 @@ class Chebfun(Polyfun):
         if self.size() == 1:
             return np.array([])
 
+        elif self.size() == 2:
+            # linear function, for which there is no colleague matrix
+            ak = self.coefficients()
+            root = -ak[0]/ak[1]
+            return self._ui_to_ab(np.array([root] if np.abs(root) <= 1 else []))
+
         elif self.size() <= 100:
             ak = self.coefficients()
             v = np.zeros_like(ak[:-1])
-- 
2.43.0


From 039c7886541dece524a18e0811ad1a8212d114ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 50/77] fix: prune Chebfun coefficients relative to their own
 scale

---
 fluids/optional/pychebfun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index da75096..050488f 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -193,13 +193,15 @@ class Polyfun:
         return self(other.values(),other.domain())
 
     @classmethod
-    def from_coeff(self, chebcoeff, domain=None, prune=True, vscale=1.):
+    def from_coeff(self, chebcoeff, domain=None, prune=True, vscale=None):
         """
         Initialise from provided coefficients
         prune: Whether to prune the negligible coefficients
-        vscale: the scale to use when pruning
+        vscale: the scale to use when pruning; the largest coefficient if not given
         """
         coeffs = np.asarray(chebcoeff)
+        if vscale is None:
+            vscale = np.max(np.abs(coeffs))
         if prune:
             N = self._cutoff(coeffs, vscale)
             pruned_coeffs = coeffs[:N]
-- 
2.43.0


From 9e0769c1113cded220d204982458b88284a8b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:55 +0000
Subject: [PATCH 51/77] fix: roots of a Chebfun with negligible leading
 coefficients

---
 fluids/optional/pychebfun.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 050488f..28f4926 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -546,6 +546,11 @@ class Chebfun(Polyfun):
         if self.size() == 1:
             return np.array([])
 
+        coeffs = self.coefficients()
+        if self._cutoff(coeffs, self._vscale) < self.size():
+            # the colleague matrix needs a nonzero leading coefficient
+            return self.from_coeff(coeffs, self.domain(), vscale=self._vscale).roots()
+
         elif self.size() == 2:
             # linear function, for which there is no colleague matrix
             ak = self.coefficients()
-- 
2.43.0


From 7bb83793222969a2f57208a632cf9382480a2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 52/77] fix: isothermal_gas diameter solution when the initial
 guess is choked

---
 fluids/compressible.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 3a9e087..3549bc1 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -979,7 +979,13 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             # It is believed Pcf and P1 will always bracket the root, however
             # leave the commented code for testing
     elif D is None and P2 is not None and P1 is not None and L is not None and m is not None:
-        return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        try:
+            return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        except:
+            # The flow is choked at every diameter above D_max
+            P_ratio2 = (P1/P2)*(P1/P2)
+            D_max = fd*L/(P_ratio2 - 1.0 - log(P_ratio2))
+            return brenth(isothermal_gas_err_D, 1e-9*D_max, (1.0 - 1e-9)*D_max, args=(m, rho, fd, P1, P2, L))
     else:
         raise ValueError("This function solves for either mass flow, upstream \
 pressure, downstream pressure, diameter, or length; all other inputs \
-- 
2.43.0


From 0c4c5c291d47ee8081de71d0889616a231753f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:08 +0000
Subject: [PATCH 53/77] fix: gas_liquid_viscosity_methods returned the module's
 own list

---
 fluids/two_phase_voidage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase_voidage.py b/fluids/two_phase_voidage.py
index 4e61c1e..82392a2 100644
--- a/fluids/two_phase_voidage.py
+++ b/fluids/two_phase_voidage.py
@@ -2753,7 +2753,7 @@ def gas_liquid_viscosity_methods(rhol: float | None=None, rhog: float | None=Non
     """
     methods = ["McAdams", "Cicchitti", "Lin Kwok"]
     if rhol is not None and rhog is not None:
-        methods = liquid_gas_viscosity_correlations_list
+        methods = list(liquid_gas_viscosity_correlations_list)
     return methods
 _gas_liquid_viscosity_method_unknown = f"Method not recognized; available methods are {list(liquid_gas_viscosity_correlations.keys())}"
 
-- 
2.43.0


From 1b2c6be092b533e4886fc036d6ddbe80da9a9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:36 +0000
Subject: [PATCH 54/77] fix: two_phase_dP_methods listed Beggs-Brill for calls
 that do not give the angle it needs

---
 fluids/two_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index a6732ab..bef526c 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -2355,7 +2355,7 @@ two_phase_correlations = {
 _unknown_msg_two_phase = f"Unknown method; available methods are {list(two_phase_correlations.keys())}"
 
 def two_phase_dP_methods(m: float, x: float, rhol: float, D: float, L: float=1.0, rhog: float | None=None, mul: float | None=None, mug: float | None=None,
-                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float=0,
+                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float | None=None,
                          check_ranges: bool=False) -> list[str]:
     r"""This function returns a list of names of correlations for two-phase
     liquid-gas pressure drop for flow inside channels.
-- 
2.43.0


From 0ecc2a0fc3c82d42930c06377ffbfbb6f12ac965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 55/77] fix: empty spherical head within rounding of a
 hemisphere divided by zero without scipy

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 06b4a68..22d17d5 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1995,7 +1995,7 @@ def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
     R = 0.5*D
     if a == R:
         return pi*R*h
-    elif h < 0.0:
+    elif h <= 0.0:
         return 0.0
     elif h > D:
         h = D
-- 
2.43.0


From 550c9d1178aefbcc11f23897a6e0bd9931d4e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 56/77] fix: Reynolds_factor returned an integer 1 for reduced
 trim

---
 fluids/control_valve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 9f551b1..af3c14b 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -597,7 +597,7 @@ def Reynolds_factor(FL: float, C: float, d: float, Rev: float, full_trim: bool=T
     else:
         n2 = 1 + N32*(C/d**2)**(2/3.)
         FR_3a = 1 + (0.33*sqrt(FL))/sqrt(sqrt(n2))*log10(Rev/10000.)
-        FR_4 = min(0.026/FL*sqrt(n2*Rev), 1)
+        FR_4 = min(0.026/FL*sqrt(n2*Rev), 1.0)
         if Rev < 10:
             FR = FR_4
         else:
-- 
2.43.0


From 74faa1b2f47e63738bd58a9d07ce3da55975273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:06 +0000
Subject: [PATCH 57/77] fix: nearest_pipe rejects a numpy integer schedule

---
 fluids/piping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 197897c..255c9f0 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -733,10 +733,10 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
         Do = round(Do*1E3, 9)
 
     # If accidentally given an numerical schedule, convert it to a string
-    if isinstance(schedule, (int, float)):
-        search_schedule = str(int(schedule))
-    else:
+    if isinstance(schedule, str):
         search_schedule = schedule
+    else:
+        search_schedule = str(int(schedule))
 
     if search_schedule not in schedule_lookup:
         raise ValueError("Schedule not recognized")
-- 
2.43.0


From c1a0703cd694f60a6d8ae1886319e44232a6a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:55 +0000
Subject: [PATCH 58/77] fix: a failed load of the weather station list left a
 partial list behind for good

---
 fluids/design_climate.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 5d7c014..cff9259 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -624,7 +624,9 @@ def _load_station_data():
     """
     global _stations, _latlongs, _station_count, _kd_tree
     if _stations is None:
-        _stations = []
+        # Nothing is published until all of it has been read, so that a failed
+        # attempt is not mistaken for a finished one
+        stations = []
         temp_latlongs = []
 
         history_file = os.path.join(folder, "isd-history-cleaned.tsv")
@@ -644,18 +646,19 @@ def _load_station_data():
                                 values[i] = float(v)
                             if int(v) == 99999:
                                 values[i] = None
-                        except:
+                        except ValueError:
                             continue
                 lat, lon = values[6], values[7]
                 # Some stations have no lat-long; this isn't useful
                 if lat and lon:
-                    _stations.append(IntegratedSurfaceDatabaseStation(*values))
+                    stations.append(IntegratedSurfaceDatabaseStation(*values))
                     temp_latlongs.append((lat, lon))
 
         # _latlongs must be unchanged as data is not copied
-        _latlongs = np.array(temp_latlongs)
-        _station_count = len(_stations)
-        _kd_tree = cKDTree(_latlongs)
+        latlongs = np.array(temp_latlongs)
+        kd_tree = cKDTree(latlongs)
+        _latlongs, _station_count, _kd_tree = latlongs, len(stations), kd_tree
+        _stations = stations
 
 def get_station_count():
     """Get the total number of stations."""
-- 
2.43.0


From 3a5c5754231173fad14e3f1d748e09e41c68ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:55 +0000
Subject: [PATCH 59/77] fix: weather stations on the equator or the Greenwich
 meridian were dropped

---
 fluids/design_climate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index cff9259..1172dfd 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -649,8 +649,8 @@ def _load_station_data():
                         except ValueError:
                             continue
                 lat, lon = values[6], values[7]
-                # Some stations have no lat-long; this isn't useful
-                if lat and lon:
+                # Some stations have no lat-long, or zeros for both; this isn't useful
+                if lat is not None and lon is not None and (lat or lon):
                     stations.append(IntegratedSurfaceDatabaseStation(*values))
                     temp_latlongs.append((lat, lon))
 
-- 
2.43.0


From 064f9c8d66cb827e448a46ef00179886f44eab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 60/77] fix: get_closest_station failed with match_max=1

---
 fluids/design_climate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 1172dfd..f2b906e 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -732,7 +732,7 @@ def get_closest_station(latitude, longitude, minumum_recent_data=20140000,
     station_count = get_station_count()
     stations = get_stations()
     distances, indexes = get_kd_tree().query([latitude, longitude], k=min(match_max, station_count))
-    for i in indexes:
+    for i in np.atleast_1d(indexes):
         latlon = _latlongs[i]
         enddate = stations[i].END
         # Iterate for all indexes until one is found whose date is current
-- 
2.43.0


From e2884c1bed0a219ea98b14e45292ca9d792b79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 61/77] fix: an interrupted write left a truncated weather file
 that was later used as complete

---
 fluids/design_climate.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index f2b906e..0c46ed4 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -36,6 +36,7 @@ __all__ = [
 import datetime
 import gzip
 import os
+import threading
 from calendar import isleap
 from collections import namedtuple
 from io import BytesIO as StringIO
@@ -744,6 +745,22 @@ def get_closest_station(latitude, longitude, minumum_recent_data=20140000,
                     "specified near the specified coordinates.")
 
 
+def _write_whole_file(path, text):
+    """Write a file which other processes, or a later call after this one was
+    interrupted, see either complete or not at all.
+    """
+    os.makedirs(os.path.dirname(path), exist_ok=True)
+    temporary = f"{path}.{os.getpid()}-{threading.get_ident()}.tmp"
+    try:
+        with open(temporary, "w") as f:
+            f.write(text)
+        os.replace(temporary, path)
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
+
 # This should be aggressively cached
 def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
     """Basic method to download data from the GSOD database, given a station
@@ -794,10 +811,7 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
     try:
         data = urlopen(toget, timeout=5)  # nosec B310
     except Exception as e:
-        if not os.path.exists(gsod_year_dir):
-            os.makedirs(gsod_year_dir)
-        with open(path, "w") as f:
-            f.write("Exception")
+        _write_whole_file(path, "Exception")
         raise ValueError("Could not obtain desired data; check "
                         "if the year has data published for the "
                         "specified station and the station was specified "
@@ -814,10 +828,7 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
         pass
 
     # Cache the data for future use
-    if not os.path.exists(gsod_year_dir):
-        os.makedirs(gsod_year_dir)
-    open(path, "w").write(year_station_data)
-
+    _write_whole_file(path, year_station_data)
 
     return year_station_data
 
-- 
2.43.0


From 815dccef3a07fa5c2c66cc3363c01750be6ecf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 62/77] fix: an empty response was returned as a year of
 weather data

---
 fluids/design_climate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 0c46ed4..21a8c6e 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -827,6 +827,9 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
     except:
         pass
 
+    if not year_station_data:
+        raise ValueError("Could not obtain desired data; the response was empty")
+
     # Cache the data for future use
     _write_whole_file(path, year_station_data)
 
-- 
2.43.0


From 65ef05f594408429445706383af4f40aba103371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 63/77] fix: two threads retrying a failed weather download
 raced on its marker file

---
 fluids/design_climate.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 21a8c6e..b4f745f 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -794,17 +794,20 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
         gsod_year_dir = os.path.join(data_dir_override, str(year))
     path = os.path.join(gsod_year_dir, station + ".op")
     if os.path.exists(path):
-        with open(path) as f:
-            data = f.read()
-            if data and data != "Exception":
-                return data
-            else:
-                # Remove the bad file and try to redownload it
-                try:
-                    os.remove(path)
-                except:
-                    pass
-                # raise ValueError(data)
+        try:
+            with open(path) as f:
+                data = f.read()
+        except FileNotFoundError:
+            data = None # another thread or process has just removed a bad file
+        if data and data != "Exception":
+            return data
+        else:
+            # Remove the bad file and try to redownload it
+            try:
+                os.remove(path)
+            except:
+                pass
+            # raise ValueError(data)
 
     toget = ("ftp://ftp.ncdc.noaa.gov/pub/data/gsod/" + str(year) + "/"
              + station + "-" + str(year) +".op.gz")
-- 
2.43.0


From 48ac532409c6ccf10fb467e02abb498e1611e49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:16 +0000
Subject: [PATCH 64/77] fix: text results of unit-aware functions were
 multiplied by a unit

---
 fluids/units.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fluids/units.py b/fluids/units.py
index a661e79..a1dfeab 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -307,24 +307,35 @@ def parse_expression_cached(unit, ureg):
     return ans
 
 
+def has_no_units(value):
+    return value is None or type(value) is str or type(value) is bool
+
+
 def convert_output(result, out_units, out_vars, ureg):
     # Attempt to handle multiple return values
     # Must be able to convert all values to a pint expression
     t = type(result)
     output_count = len(out_units)
-    if t is str or t is bool or result is None:
+    if has_no_units(result):
         return result
     elif t is dict:
         for key, ans in result.items():
+            if has_no_units(ans):
+                continue
             unit = out_units[out_vars.index(key)]
             result[key] = ans*parse_expression_cached(unit, ureg)
         return result
+    elif t is list and any(has_no_units(i) for i in result):
+        return result
     elif (t is list or t is ndarray) and output_count == 1:
         return np.array(result)*parse_expression_cached(out_units[0], ureg)
     elif isinstance(result, Iterable):
         conveted_result = []
         for ans, unit in zip(result, out_units):
-            conveted_result.append(ans*parse_expression_cached(unit, ureg))
+            if has_no_units(ans):
+                conveted_result.append(ans)
+            else:
+                conveted_result.append(ans*parse_expression_cached(unit, ureg))
         return conveted_result
     else:
         return result*parse_expression_cached(out_units[0], ureg)
-- 
2.43.0


From 3d3adf6b531c8f32cf77fd5bba1eb983f755a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:34 +0000
Subject: [PATCH 65/77] fix: list arguments of unit-aware functions were spread
 over scalar calls

---
 fluids/units.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index a1dfeab..7176fc9 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -361,6 +361,8 @@ def wraps_numpydoc(ureg, strict=True):
         in_vars_to_dict = {}
         for i, j in zip(in_vars, in_units):
             in_vars_to_dict[i] = j
+        array_vars = {var for var, var_type in zip(parsed_info["Parameters"]["vars"], parsed_info["Parameters"]["types"])
+                      if "array" in var_type or "list" in var_type}
 
         out_units = parsed_info["Returns"]["units"]
         out_vars = parsed_info["Returns"]["vars"]
@@ -389,7 +391,10 @@ def wraps_numpydoc(ureg, strict=True):
             for name, val in kw.items():
                 unit = in_vars_to_dict[name]
                 kwargs[name] = convert_input(val, unit, ureg, strict)
-            if any(type(i.m) == np.ndarray for i in list(kw.values()) + list(values) if type(i) == u.Quantity):
+            # An array given where an array is documented is a single value
+            scalar_values = ([val for name, val in zip(in_vars, values) if name not in array_vars]
+                             + [val for name, val in kw.items() if name not in array_vars])
+            if any(type(i.m) == np.ndarray for i in scalar_values if type(i) == u.Quantity):
                 result = getattr(fluids.vectorized, func.__name__)(*conv_values, **kwargs)
             else:
                 result = func(*conv_values, **kwargs)
-- 
2.43.0


From b2b8941cf105e288777c9537a7728f42d0ab3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 66/77] fix: isentropic_work_compression and
 liquid_jet_pump_ancillary lost their units through fluids.units

---
 fluids/units.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index 7176fc9..53e2e1c 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -725,9 +725,25 @@ variable_output_unit_funcs = {
                         (True, True, True, True, False, True, True): [u.m],
                         (True, True, True, True, True, False, True): [u.m],
                         (True, True, True, True, True, True, False): [u.kg/u.s],
-                        }, 7)
+                        }, 7),
+    "liquid_jet_pump_ancillary": ({(True, True, True, True, False, True, True, True, True, True): [u.m],
+                                   (True, True, True, True, True, False, True, True, True, True): [u.m],
+                                   (True, True, True, True, True, True, False, True, True, True): [u.m**3/u.s],
+                                   (True, True, True, True, True, True, True, False, True, True): [u.m**3/u.s],
+                                   (True, True, True, True, True, True, True, True, False, True): [u.Pa],
+                                   (True, True, True, True, True, True, True, True, True, False): [u.Pa],
+                                   }, 10),
 }
 
+for has_Z in (True, False):
+    # the compressibility factor has a default and may be left out
+    variable_output_unit_funcs.setdefault("isentropic_work_compression", ({}, 7))[0].update({
+        (True, True, has_Z, False, True, True, True): [u.Pa],
+        (True, True, has_Z, True, False, True, True): [u.Pa],
+        (True, True, has_Z, True, True, False, True): [u.J/u.mol],
+        (True, True, has_Z, True, True, True, False): [u.dimensionless],
+    })
+
 simple_compressible_variable_output = ({(True, True, False, True, True, True, True): [u.m],
                                         (True, True, True, False, True, True, True): [u.m],
                                         (True, True, True, True, False, True, True): [u.Pa],
-- 
2.43.0


From c6e7a7528cc7ebdecf99f6948584455dd174d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:44 +0000
Subject: [PATCH 67/77] fix: full output of control valve sizing and
 liquid_jet_pump raised through fluids.units

---
 fluids/control_valve.py | 26 ++++++++++++++++++++++++++
 fluids/jet_pump.py      | 30 ++++++++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index af3c14b..0462420 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -661,6 +661,21 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
     Kv : float
         Metric Kv valve flow coefficient (flow rate of water at a pressure drop
         of 1 bar) [m^3/hr]
+    Rev : float
+        Valve Reynolds number, only returned if `full_output` is True [-]
+    FL : float
+        Liquid pressure recovery factor of the valve without fittings, only
+        returned if `full_output` is True [-]
+    FLP : float
+        Combined liquid pressure recovery and piping geometry factor, only
+        returned if `full_output` is True [-]
+    FF : float
+        Liquid critical pressure ratio factor, only returned if `full_output`
+        is True [-]
+    FR : float
+        Reynolds number factor, only returned if `full_output` is True [-]
+    FP : float
+        Piping geometry factor, only returned if `full_output` is True [-]
 
     Notes
     -----
@@ -844,6 +859,17 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
     Kv : float
         Metric Kv valve flow coefficient (flow rate of water at a pressure drop
         of 1 bar) [m^3/hr]
+    Rev : float
+        Valve Reynolds number, only returned if `full_output` is True [-]
+    Y : float
+        Expansion factor, only returned if `full_output` is True [-]
+    xTP : float
+        Pressure difference ratio factor of the valve with fittings at choked
+        flow, only returned if `full_output` is True [-]
+    FR : float
+        Reynolds number factor, only returned if `full_output` is True [-]
+    FP : float
+        Piping geometry factor, only returned if `full_output` is True [-]
 
     Notes
     -----
diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index cc1d58c..cf6bb35 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -325,8 +325,34 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
 
     Returns
     -------
-    solution : dict
-        Dictionary of calculated parameters, [-]
+    results : dict
+        Dictionary of calculated parameters, with the following keys, [-]
+    d_nozzle : float
+        Diameter of primary fluid nozzle, [m]
+    d_mixing : float
+        Diameter of mixing section, [m]
+    Qp : float
+        Flow rate of primary fluid through pump, [m^3/s]
+    Qs : float
+        Flow rate of secondary fluid through pump, [m^3/s]
+    P1 : float
+        Pressure of primary fluid entering its nozzle, [Pa]
+    P2 : float
+        Pressure of secondary fluid at the entry of its ring, [Pa]
+    P5 : float
+        Pressure at the exit of the diffuser, [Pa]
+    d_diffuser : float
+        Diameter of diffuser, [m]
+    N : float
+        Pressure ratio, [-]
+    M : float
+        Flow ratio, [-]
+    R : float
+        Area ratio of the nozzle and the mixing section, [-]
+    alpha : float
+        Area ratio of the mixing section and the diffuser, [-]
+    efficiency : float
+        Efficiency of the pump, [-]
 
     Notes
     -----
-- 
2.43.0


From f10c19a746906fe2b069da3fd7f33e488eda9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 68/77] fix: erosional_velocity and the Rosin-Rammler
 distributions documented units that could not be parsed

---
 fluids/particle_size_distribution.py | 6 +++---
 fluids/piping.py                     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index f0dbd01..1add652 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -935,7 +935,7 @@ def pdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, in units of (1/m)^m, [various]
     m : float
         Parameter in the model, [-]
 
@@ -976,7 +976,7 @@ def cdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, in units of (1/m)^m, [various]
     m : float
         Parameter in the model, [-]
 
@@ -1024,7 +1024,7 @@ def pdf_Rosin_Rammler_basis_integral(d: float, k: float, m: float, n: float) ->
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, in units of (1/m)^m, [various]
     m : float
         Parameter in the model, [-]
     n : int
diff --git a/fluids/piping.py b/fluids/piping.py
index 255c9f0..4113bac 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -1069,7 +1069,7 @@ def erosional_velocity(rho: int, C: int) -> float:
     rho : float
         Bulk mass density of the overall fluid, [kg/m^3]
     C : float
-        Erosional velocity factor; must be provided,  [sqrt(lb/(ft*s^2))]
+        Erosional velocity factor; must be provided,  [lb^0.5/(ft^0.5*s)]
 
     Returns
     -------
-- 
2.43.0


From 66e122ccf54a3ee93d08a5bd2b862739a8142278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 69/77] fix: wrong units documented, and returned by
 fluids.units, for SA_from_h, SA_tank, specific_diameter and three density
 functions

---
 fluids/geometry.py                   | 10 +++++-----
 fluids/particle_size_distribution.py |  6 +++---
 fluids/pump.py                       |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 22d17d5..6352370 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1489,13 +1489,13 @@ def SA_tank(D: float, L: float, sideA: str | None=None, sideB: str | None=None,
         The distance the head as specified by sideB extends up or to the right
         from the main cylindrical section, [m]
     sideA_f : float, optional
-        Dish-radius parameter for side A; fD  = dish radius [1/m]
+        Dish-radius parameter for side A; fD  = dish radius [-]
     sideA_k : float, optional
-        knuckle-radius parameter for side A; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side A; kD = knuckle radius [-]
     sideB_f : float, optional
-        Dish-radius parameter for side B; fD  = dish radius [1/m]
+        Dish-radius parameter for side B; fD  = dish radius [-]
     sideB_k : float, optional
-        knuckle-radius parameter for side B; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side B; kD = knuckle radius [-]
 
     Returns
     -------
@@ -3013,7 +3013,7 @@ def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str |
     Returns
     -------
     SA : float
-        Wetted wall surface area up to h [m^3]
+        Wetted wall surface area up to h [m^2]
 
     Examples
     --------
diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 1add652..6535cb0 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -611,7 +611,7 @@ def pdf_lognormal(d: float, d_characteristic: float, s: float) -> float:
     Returns
     -------
     pdf : float
-        Lognormal probability density function, [-]
+        Lognormal probability density function, [1/m]
 
     Notes
     -----
@@ -791,7 +791,7 @@ def pdf_Gates_Gaudin_Schuhman(d: float, d_characteristic: float, m: float) -> fl
     Returns
     -------
     pdf : float
-        GGS probability density function, [-]
+        GGS probability density function, [1/m]
 
     Notes
     -----
@@ -942,7 +942,7 @@ def pdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     Returns
     -------
     pdf : float
-        RR probability density function, [-]
+        RR probability density function, [1/m]
 
     Notes
     -----
diff --git a/fluids/pump.py b/fluids/pump.py
index d3a4134..111164f 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -554,7 +554,7 @@ def specific_diameter(Q: float, H: float, D: float) -> float:
     Returns
     -------
     Ds : float
-        Specific diameter, [m^0.25/s^0.5]
+        Specific diameter, [s^0.5/m^0.25]
 
     Notes
     -----
-- 
2.43.0


From ace2f495c57ab03a0e3ff9c00d4eff1b83317c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:09 +0000
Subject: [PATCH 70/77] fix: classes with missing or wrong documented
 parameters could not be used through fluids.units

---
 fluids/geometry.py                   | 23 +++++-----
 fluids/particle_size_distribution.py | 67 +++++++++++++++++++++++++++-
 2 files changed, 79 insertions(+), 11 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 6352370..1a8e93f 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3579,7 +3579,10 @@ class TANK:
             Dimensionless knuckle-radius parameter for side B; also commonly given
             as the product of `k` and `D` (`kD`), which is called the knuckle
             radius and has units of length, [-]
-
+        sideA_a_ratio : float, optional
+            Ratio of `sideA_a` to the diameter of the tank, [-]
+        sideB_a_ratio : float, optional
+            Ratio of `sideB_a` to the diameter of the tank, [-]
 
         Returns
         -------
@@ -4363,10 +4366,10 @@ class RectangularFinExchanger:
     blockage_ratio : float
         The fraction of the layer which is blocked to flow by the fins,
         :math:`\text{blockage ratio} = \frac{s\cdot h - s\cdot t - t(h-t)}{s\cdot h}`,
-        [m]
+        [-]
     A_channel : float
         Flow area of a single channel in a single layer,
-        :math:`\text{channel area} = (s-t)(h-t)`, [m]
+        :math:`\text{channel area} = (s-t)(h-t)`, [m^2]
     P_channel : float
         Wetted perimeter of a single channel in a single layer,
         :math:`\text{channel perimeter} = 2(s-t) + 2(h-t)`, [m]
@@ -4391,7 +4394,7 @@ class RectangularFinExchanger:
         The product of the height, width, and length of the HX, [m^3]
     A_specific_HX : float
         The specific surface area of the heat exchanger - square meters per
-        meter cubed, [m^3]
+        meter cubed, [1/m]
 
     Notes
     -----
@@ -4539,19 +4542,19 @@ class HyperbolicCoolingTower:
     D_throat : float, optional
         The diameter of the cooling tower at its minimum section, called its
         throat; where the two hyperbolas meet, [m]
-    h_throat : float, optional
+    H_throat : float, optional
         The elevation of the cooling tower's throat (its minimum section; where
         the two hyperbolas meet), [m]
-    inlet_rounding : float, optional
-        Radius of an optional rounded protrusion from the lip of the cooling
-        tower shell base, which curves upwards from the lip (used to reduce
-        the dead zone area rather than having a flat lip), [m]
     H_support : float, optional
         The height of each support column, [m]
     D_support : float, optional
         The diameter of each support column, [m]
     n_support : int, optional
-        The number of support columns of the cooling tower, [m]
+        The number of support columns of the cooling tower, [-]
+    inlet_rounding : float, optional
+        Radius of an optional rounded protrusion from the lip of the cooling
+        tower shell base, which curves upwards from the lip (used to reduce
+        the dead zone area rather than having a flat lip), [m]
 
     Attributes
     ----------
diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 6535cb0..7685902 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1283,7 +1283,7 @@ class ParticleSizeDistributionContinuous:
         -------
         pdf : float
             The probability density function at the specified diameter and
-            order, [-]
+            order, [1/m]
 
         Notes
         -----
@@ -2088,6 +2088,22 @@ del _mean_size_iso_docstring
 del _mean_size_docstring
 
 class PSDLognormal(ParticleSizeDistributionContinuous):
+    r"""Class representing a lognormal particle size distribution.
+
+    Parameters
+    ----------
+    d_characteristic : float
+        Characteristic particle diameter, [m]
+    s : float
+        Standard deviation of the logarithm of the diameter, [-]
+    order : int, optional
+        The order of distribution the parameters are given for; 0 is number,
+        1 is length, 2 is area, and 3 is volume or mass, [-]
+    d_min : float, optional
+        Lower truncation of the distribution, [m]
+    d_max : float, optional
+        Upper truncation of the distribution, [m]
+    """
     name = "Lognormal"
     points = False
     truncated = False
@@ -2138,6 +2154,23 @@ class PSDLognormal(ParticleSizeDistributionContinuous):
 
 
 class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
+    r"""Class representing a Gates, Gaudin and Schuhman particle size
+    distribution.
+
+    Parameters
+    ----------
+    d_characteristic : float
+        Diameter of the largest particles, [m]
+    m : float
+        Exponent of the model, [-]
+    order : int, optional
+        The order of distribution the parameters are given for; 0 is number,
+        1 is length, 2 is area, and 3 is volume or mass, [-]
+    d_min : float, optional
+        Lower truncation of the distribution, [m]
+    d_max : float, optional
+        Upper truncation of the distribution, [m]
+    """
     name = "Gates Gaudin Schuhman"
     points = False
     truncated = False
@@ -2185,6 +2218,22 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
 
 
 class PSDRosinRammler(ParticleSizeDistributionContinuous):
+    r"""Class representing a Rosin-Rammler particle size distribution.
+
+    Parameters
+    ----------
+    k : float
+        Parameter in the model, in units of (1/m)^m, [various]
+    m : float
+        Exponent of the model, [-]
+    order : int, optional
+        The order of distribution the parameters are given for; 0 is number,
+        1 is length, 2 is area, and 3 is volume or mass, [-]
+    d_min : float, optional
+        Lower truncation of the distribution, [m]
+    d_max : float, optional
+        Upper truncation of the distribution, [m]
+    """
     name = "Rosin Rammler"
     points = False
     truncated = False
@@ -2312,6 +2361,22 @@ class PSDCustom(ParticleSizeDistributionContinuous):
 
 
 class PSDInterpolated(ParticleSizeDistributionContinuous):
+    r"""Class representing a particle size distribution interpolated between
+    given points of its cumulative distribution.
+
+    Parameters
+    ----------
+    ds : list[float]
+        Particle diameters, [m]
+    fractions : list[float]
+        Fraction of the particles between each diameter and the one before,
+        [-]
+    order : int, optional
+        The order of distribution the fractions are given for; 0 is number,
+        1 is length, 2 is area, and 3 is volume or mass, [-]
+    monotonic : bool, optional
+        Whether the interpolation is to be monotonic, [-]
+    """
     name = "Interpolated"
     points = True
     truncated = False
-- 
2.43.0


From 8dc9a737b20683046aac0bae02631f36a42432e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 71/77] fix: HelicalCoil, CountryPower and dP_wedge_meter took
 some arguments in the wrong units through fluids.units

---
 fluids/flow_meter.py |  4 ++--
 fluids/geometry.py   | 14 +++++++-------
 fluids/pump.py       |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index df47540..e1797bc 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2043,8 +2043,8 @@ def dP_wedge_meter(D: float, H: float, P1: float, P2: float) -> float:
         Static pressure of fluid upstream of wedge meter at the cross-section
         of the pressure tap, [Pa]
     P2 : float
-        Static pressure of fluid at the end of the wedge meter pressure tap, [
-        Pa]
+        Static pressure of fluid at the end of the wedge meter pressure tap,
+        [Pa]
 
     Returns
     -------
diff --git a/fluids/geometry.py b/fluids/geometry.py
index 1a8e93f..d48487d 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3947,23 +3947,23 @@ class HelicalCoil:
     Do : float
         Diameter of the spiral as measured from the center of the coil on one
         side to the center of the coil on the other side, [m]
-    Do_total : float, optional
-        Diameter of the spiral as measured from one edge of the tube to the
-        other edge; equal to Do + Dt; either `Do` or `Do_total` may be
-        specified and the other will be calculated [m]
     pitch : float, optional
         Height change from one coil to the next as measured from the middles
         of the tube, [m]
     H : float, optional
         Height of the spiral, as measured from the middle of the bottom of the
         tube to the middle of the top of the tube, [m]
+    N : float, optional
+        Number of coil turns; may be specified along with `pitch` instead of
+        specifying `H` or `H_total`, [-]
     H_total : float, optional
         Height of the spiral as measured from one edge of the tube to the other
         edge; equal to `H_total` + `Dt`; either may be specified and the other
         will be calculated [m]
-    N : float, optional
-        Number of coil turns; may be specified along with `pitch` instead of
-        specifying `H` or `H_total`, [-]
+    Do_total : float, optional
+        Diameter of the spiral as measured from one edge of the tube to the
+        other edge; equal to Do + Dt; either `Do` or `Do_total` may be
+        specified and the other will be calculated [m]
     Di : float, optional
         Inner diameter of the tube; if specified, inside and annulus properties
         will be calculated, [m]
diff --git a/fluids/pump.py b/fluids/pump.py
index 111164f..1a8e47e 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -672,15 +672,15 @@ class CountryPower:
 
     Parameters
     ----------
-    plugs : tuple(str)
-        Tuple of residential plug letter codes in use in the country, [-]
+    country : str
+        The name of the country, [-]
     voltage : float or tuple(float)
         Voltage or voltages in common use of the country (residential data
         has one voltage; industrial data has multiple often), [V]
     freq : float
         The electrical frequency in use in the country, [Hz]
-    country : str
-        The name of the country, [-]
+    plugs : tuple(str)
+        Tuple of residential plug letter codes in use in the country, [-]
     """
 
     __slots__ = ("country", "freq", "plugs", "voltage")
-- 
2.43.0


From fd42041801ce4f742f0aaab30829c34377ee0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:52 +0000
Subject: [PATCH 72/77] fix: partial volumes of horizontal tanks raised a math
 domain error when nearly empty or full

---
 fluids/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d48487d..7d98848 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -565,8 +565,11 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
         Vf = pi*a*h*h*(1.0 - h/R*(1.0/3.0))
     elif abs(a) >= 0.01*D:
         R_r = R/r
+        # rounding can take these just out of range when nearly empty or full
+        cos0 = max(-1.0, min(1.0, (R*R - r*w)/(R*(w-r))))
+        cos1 = max(-1.0, min(1.0, (R*R + r*w)/(R*(w+r))))
         Vf = a/abs(a)*(
-        (2.0/3.0)*r*r*r*(acos((R*R - r*w)/(R*(w-r))) + acos((R*R+r*w)/(R*(w+r)))
+        (2.0/3.0)*r*r*r*(acos(cos0) + acos(cos1)
         - z/r*(2.0+R_r*R_r)*acos(w/R))
         - 2.0*(w*r*r - w*w*w*(1.0/3.0))*atan(y/z) + (4.0/3.0)*w*y*z)
     else:
@@ -586,7 +589,7 @@ def V_horiz_torispherical_toint_1(x: float, w: float, c10: float, c11: float) ->
     # No analytical integral available in MP
     n = c11 + sqrt(c10 - x*x)
     n2 = n*n
-    t = sqrt(n2 - w*w)
+    t = sqrt(max(n2 - w*w, 0.0)) # can round to just under zero
     return n2*asin(t/n) - w*t
 
 def V_horiz_torispherical_toint_2(x: float, w: float, c10: float, c11: float, g: float, g2: float) -> float:
-- 
2.43.0


From 21d313871f6a5357e983adcbedf7ddbcdcdc2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:01 +0000
Subject: [PATCH 73/77] fix: the compiled transit_sunrise_sunset read the wrong
 quantities and returned nonsense

---
 fluids/optional/spa.py | 67 +++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/fluids/optional/spa.py b/fluids/optional/spa.py
index b1ab2bd..91eaece 100644
--- a/fluids/optional/spa.py
+++ b/fluids/optional/spa.py
@@ -902,6 +902,35 @@ def earthsun_distance(unixtime, delta_t):
     return R
 
 
+def _geocentric_solar_position(unixtime, delta_t):
+    jd = julian_day(unixtime)
+    jde = julian_ephemeris_day(jd, delta_t)
+    jc = julian_century(jd)
+    jce = julian_ephemeris_century(jde)
+    jme = julian_ephemeris_millennium(jce)
+    R = heliocentric_radius_vector(jme)
+    L = heliocentric_longitude(jme)
+    B = heliocentric_latitude(jme)
+    Theta = geocentric_longitude(L)
+    beta = geocentric_latitude(B)
+    x0 = mean_elongation(jce)
+    x1 = mean_anomaly_sun(jce)
+    x2 = mean_anomaly_moon(jce)
+    x3 = moon_argument_latitude(jce)
+    x4 = moon_ascending_longitude(jce)
+    delta_psi, delta_epsilon = longitude_obliquity_nutation(jce, x0, x1, x2, x3, x4)
+
+    epsilon0 = mean_ecliptic_obliquity(jme)
+    epsilon = true_ecliptic_obliquity(epsilon0, delta_epsilon)
+    delta_tau = aberration_correction(R)
+    lamd = apparent_sun_longitude(Theta, delta_psi, delta_tau)
+    v0 = mean_sidereal_time(jd, jc)
+    v = apparent_sidereal_time(v0, delta_psi, epsilon)
+    alpha = geocentric_sun_right_ascension(lamd, epsilon, beta)
+    delta = geocentric_sun_declination(lamd, epsilon, beta)
+    return v, alpha, delta, R, jme, delta_psi, epsilon
+
+
 def solar_position(unixtime, lat, lon, elev, pressure, temp, delta_t,
                    atmos_refract, sst=False):
     """Calculate the solar position using the NREL SPA algorithm described in
@@ -964,31 +993,7 @@ def solar_position(unixtime, lat, lon, elev, pressure, temp, delta_t,
     .. [2] I. Reda and A. Andreas, Corrigendum to Solar position algorithm for
     solar radiation applications. Solar Energy, vol. 81, no. 6, p. 838, 2007.
     """
-    jd = julian_day(unixtime)
-    jde = julian_ephemeris_day(jd, delta_t)
-    jc = julian_century(jd)
-    jce = julian_ephemeris_century(jde)
-    jme = julian_ephemeris_millennium(jce)
-    R = heliocentric_radius_vector(jme)
-    L = heliocentric_longitude(jme)
-    B = heliocentric_latitude(jme)
-    Theta = geocentric_longitude(L)
-    beta = geocentric_latitude(B)
-    x0 = mean_elongation(jce)
-    x1 = mean_anomaly_sun(jce)
-    x2 = mean_anomaly_moon(jce)
-    x3 = moon_argument_latitude(jce)
-    x4 = moon_ascending_longitude(jce)
-    delta_psi, delta_epsilon = longitude_obliquity_nutation(jce, x0, x1, x2, x3, x4)
-
-    epsilon0 = mean_ecliptic_obliquity(jme)
-    epsilon = true_ecliptic_obliquity(epsilon0, delta_epsilon)
-    delta_tau = aberration_correction(R)
-    lamd = apparent_sun_longitude(Theta, delta_psi, delta_tau)
-    v0 = mean_sidereal_time(jd, jc)
-    v = apparent_sidereal_time(v0, delta_psi, epsilon)
-    alpha = geocentric_sun_right_ascension(lamd, epsilon, beta)
-    delta = geocentric_sun_declination(lamd, epsilon, beta)
+    v, alpha, delta, R, jme, delta_psi, epsilon = _geocentric_solar_position(unixtime, delta_t)
     if sst: # numba: delete
         return v, alpha, delta # numba: delete
 
@@ -1174,16 +1179,12 @@ def transit_sunrise_sunset(dates, lat, lon, delta_t):
     ttdayp1 = ttday0 + 86400.0
 
     # index 0 is v, 1 is alpha, 2 is delta
-    utday_res = solar_position(utday, 0, 0, 0, 0, 0, delta_t,
-                               0, sst=True)
+    utday_res = _geocentric_solar_position(utday, delta_t)
     v = utday_res[0]
 
-    ttday0_res = solar_position(ttday0, 0, 0, 0, 0, 0, delta_t,
-                                0, sst=True)
-    ttdayn1_res = solar_position(ttdayn1, 0, 0, 0, 0, 0, delta_t,
-                                 0, sst=True)
-    ttdayp1_res = solar_position(ttdayp1, 0, 0, 0, 0, 0, delta_t,
-                                 0, sst=True)
+    ttday0_res = _geocentric_solar_position(ttday0, delta_t)
+    ttdayn1_res = _geocentric_solar_position(ttdayn1, delta_t)
+    ttdayp1_res = _geocentric_solar_position(ttdayp1, delta_t)
     m0 = (ttday0_res[1] - lon - v) / 360
     cos_arg = ((-0.014543315936696236 - sin(radians(lat)) # sin(radians(-0.8333)) = -0.0145...
                * sin(radians(ttday0_res[2]))) /
-- 
2.43.0


From 49ae92bc334d9cf223f20eec8f8a38d6b4cb2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:10 +0000
Subject: [PATCH 74/77] fix: the compiled area of an empty ellipsoidal head
 divided by zero

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 7d98848..86199ce 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -2100,7 +2100,7 @@ def SA_partial_horiz_ellipsoidal_head(D: float, a: float, h: float) -> float:
        April 2017. https://www.chemicalprocessing.com/assets/Uploads/calculating-tank-wetted-area.pdf
     """
     R = 0.5*D
-    if h < 0.0:
+    if R - h >= R:
         return 0.0
     elif h > D:
         h = D
-- 
2.43.0


From 94aed941e6e0998a55644287e439b34ece232063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 75/77] fix: the Python Lambert W underflowed on the -1 branch
 for arguments near zero

---
 fluids/numerics/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 7c37337..24d9a31 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -375,7 +375,7 @@ __all__ = [
 ]
 
 __numba_additional_funcs__ = ["py_bisplev", "py_splev", "binary_search",
-                              "py_lambertw", "_lambertw_err", "newton_err",
+                              "py_lambertw", "_lambertw_err", "_lambertw_log_err", "newton_err",
                               "norm2", "py_solve", "func_35_splev", "func_40_splev",
                               "quad_adaptive", "fixed_quad_Gauss_Kronrod",
                               "halley_compat_numba",
@@ -6120,6 +6120,8 @@ except ImportError:
 
 def _lambertw_err(x, y):
     return x*exp(x) - y
+def _lambertw_log_err(x, log_y):
+    return x + log(-x) - log_y
 def py_lambertw(y, k=0):
     """For x > 0, the is always only one real solution For -1/e < x < 0, two
     real solutions.
@@ -6137,7 +6139,8 @@ def py_lambertw(y, k=0):
     elif k == -1:
         # Input should be between 0 and -1/e
         # not a big input range!
-        return brenth(_lambertw_err, -700.0, -1.0, (y,)) + 0.0j
+        # Solved in logarithms, as everything else underflows for small y
+        return brenth(_lambertw_log_err, -800.0, -1.0, (log(-y),)) + 0.0j
     else:
         raise ValueError("Other branches not supported")
 #has_scipy = False
-- 
2.43.0


From 1d534e8c7cacdec38cf4642fcbbef41f13d26393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 76/77] fix: compiled isothermal_gas returned the upstream
 pressure as the downstream one at small pressure drops

---
 fluids/compressible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 3549bc1..85344e5 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -792,7 +792,7 @@ def T_stagnation_ideal(T: float, V: float, Cp: float) -> float:
 def isothermal_gas_err_P1(P1: float, fd: float, rho: float, P2: float, L: float, D: float, m: float) -> float:
     # No choking check: the upper end of the bracket is the choked state itself,
     # on either side of which rounding may place it
-    return m - sqrt(0.0625*pi*pi*D**4*rho/(P1*(fd*L/D + 2.0*log(P1/P2)))*(P1*P1 - P2*P2))
+    return m - sqrt(0.0625*pi*pi*D**4*rho/(P1*(fd*L/D + 2.0*log(P1/P2)))*((P1 - P2)*(P1 + P2)))
 
 def isothermal_gas_err_P2(P2: float, rho: float, fd: float, P1: float, L: float, D: float, m: float) -> float:
     return m - isothermal_gas(rho, fd, P1=P1, P2=P2, L=L, D=D)
@@ -920,7 +920,7 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
         if P2 > P1:
             raise ValueError("Specified outlet pressure is larger than the "
                              "inlet pressure; fluid will flow backwards.")
-        return sqrt(0.0625*pi*pi*D**4*rho/(P1*(fd*L/D + 2.0*log(P1/P2)))*(P1*P1 - P2*P2))
+        return sqrt(0.0625*pi*pi*D**4*rho/(P1*(fd*L/D + 2.0*log(P1/P2)))*((P1 - P2)*(P1 + P2)))
     elif L is None and P1 is not None and P2 is not None and D is not None and m is not None:
         return D*(pi*pi*D**4*rho*(P1*P1 - P2*P2) - 32.0*P1*m*m*log(P1/P2))/(16.0*P1*fd*m*m)
     elif P1 is None and L is not None and P2 is not None and D is not None and m is not None:
-- 
2.43.0


From 0da73845db8edcb5e5e1d38a43c893f15c227651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 77/77] fix: tank volumes and areas lost all digits for nearly
 flat spherical heads and gave nan when compiled

---
 fluids/geometry.py | 114 +++++++++++++++++++++------------------------
 1 file changed, 52 insertions(+), 62 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 86199ce..c3f052e 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -283,6 +283,11 @@ def V_partial_sphere(D: float, h: float) -> float:
 
 ### Functions as developed by Dan Jones
 
+def _acos_level(R: float, h: float) -> float:
+    # Half the angle wetted in a circle filled to `h`; rounding can take the
+    # argument just out of range when nearly full, above all in compiled code
+    return acos(max(-1.0, min(1.0, (R - h)/R)))
+
 def V_horiz_conical(D: float, L: float, a: float, h: float, headonly: bool=False) -> float:
     r"""Calculates volume of a tank with conical ends, according to [1]_.
 
@@ -340,7 +345,7 @@ def V_horiz_conical(D: float, L: float, a: float, h: float, headonly: bool=False
         h = D
     R = 0.5*D
     R_third = R*(1.0/3.0)
-    t0 = (R-h)/R
+    t0 = max(-1.0, min(1.0, (R-h)/R))
     Af = R*R*acos(t0) - (R-h)*sqrt(h*(R + R - h))
     M = abs(t0)
     if h == R:
@@ -403,7 +408,7 @@ def V_horiz_ellipsoidal(D: float, L: float, a: float, h: float, headonly: bool=F
     elif h > D:
         h = D
     R = 0.5*D
-    Af = R*R*acos((R-h)/R) - (R-h)*sqrt(2*R*h - h*h)
+    Af = R*R*_acos_level(R, h) - (R-h)*sqrt(h*(R + R - h))
     Vf = pi*a*h*h*(1 - h/(3.*R))
     if headonly:
         Vf = 0.5*Vf
@@ -457,18 +462,21 @@ def V_horiz_guppy(D: float, L: float, a: float, h: float, headonly: bool=False)
     elif h > D:
         h = D
     R = 0.5*D
-    x0 = sqrt(2.*R*h - h*h)
-    Af = R*R*acos((R-h)/R) - (R-h)*x0
-    Vf = (2./3.0)*a*R*R*acos(1. - h/R) + (2./9.)*a/R*x0*(2.0*h - 3.0*R)*(h + R)
+    x0 = sqrt(h*(R + R - h))
+    Af = R*R*_acos_level(R, h) - (R-h)*x0
+    Vf = (2./3.0)*a*R*R*_acos_level(R, h) + (2./9.)*a/R*x0*(2.0*h - 3.0*R)*(h + R)
     if headonly:
         Vf = Vf*0.5
     else:
         Vf += Af*L
     return Vf
 
-def _V_horiz_spherical_toint(x: float, r2: float, R2: float, den_inv: float) -> float:
-    x2 = x*x
-    return (r2 - x2)*atan(sqrt((R2 - x2)*den_inv))
+def _V_horiz_spherical_toint(x: float, R2: float, z_inv: float) -> float:
+    # Circular segment of a nearly flat head; the sector and the triangle it is
+    # the difference of nearly cancel, so their series in t = s/z is used
+    s2 = max(R2 - x*x, 0.0)
+    t2 = s2*z_inv*z_inv
+    return s2*sqrt(s2)*z_inv*(2.0/3.0 - t2*(2.0/15.0 - t2*(2.0/35.0 - t2*(2.0/63.0 - t2*(2.0/99.0)))))
 
 
 def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=False) -> float:
@@ -549,13 +557,13 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
     R = 0.5*D
     r = 0.5*(a*a + R*R)/abs(a)
     w = R - h
-    y = sqrt(2.0*R*h - h*h)
+    y = sqrt(h*(R + R - h))
     if isclose(r, R, rel_tol=2e-15):
         # Handle the case of small issues in calculation of `r` blowing up the calculation
         z = 0.0
     else:
         z = sqrt(r*r - R*R)
-    Af = R*R*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - h*h)
+    Af = R*R*_acos_level(R, h) - (R-h)*sqrt(h*(R + R - h))
 
     if h == R and abs(a) <= R:
         Vf = (pi/6.0)*a*(3.0*R*R + a*a)
@@ -573,11 +581,8 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
         - z/r*(2.0+R_r*R_r)*acos(w/R))
         - 2.0*(w*r*r - w*w*w*(1.0/3.0))*atan(y/z) + (4.0/3.0)*w*y*z)
     else:
-        r2 = r*r
-        R2 = R*R
-        den_inv = 1.0/(r2 - R2)
-        integrated = quad(_V_horiz_spherical_toint, w, R, args=(r2, R2, den_inv))[0] # , epsrel=1.49e-13,
-        Vf = a/abs(a)*(2.0*integrated - Af*z)
+        integrated = quad(_V_horiz_spherical_toint, w, R, args=(R*R, 1.0/z))[0] # , epsrel=1.49e-13,
+        Vf = a/abs(a)*2.0*integrated
     if headonly:
         Vf = 0.5*Vf
     else:
@@ -587,24 +592,26 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
 
 def V_horiz_torispherical_toint_1(x: float, w: float, c10: float, c11: float) -> float:
     # No analytical integral available in MP
-    n = c11 + sqrt(c10 - x*x)
+    n = c11 + sqrt(max(c10 - x*x, 0.0))
     n2 = n*n
     t = sqrt(max(n2 - w*w, 0.0)) # can round to just under zero
     return n2*asin(t/n) - w*t
 
 def V_horiz_torispherical_toint_2(x: float, w: float, c10: float, c11: float, g: float, g2: float) -> float:
     # No analytical integral available in MP
-    n = c11 + sqrt(c10 - x*x)
+    n = c11 + sqrt(max(c10 - x*x, 0.0))
     n2 = n*n
     n_inv = 1.0/n
-    ans = n2*(acos(w*n_inv) - acos(g*n_inv)) - w*sqrt(n2 - w*w) + g*sqrt(n2 - g2)
+    # these can all round to just out of range
+    ans = (n2*(acos(max(min(w*n_inv, 1.0), -1.0)) - acos(min(g*n_inv, 1.0)))
+           - w*sqrt(max(n2 - w*w, 0.0)) + g*sqrt(max(n2 - g2, 0.0)))
     return ans
 
 def V_horiz_torispherical_toint_3(x: float, r2: float, g2: float, z_inv: float) -> float:
     # There is an analytical integral in MP, but for all cases we seem to
     # get ZeroDivisionError: 0.0 cannot be raised to a negative power
     x2 = x*x
-    return (r2 - x2)*atan(sqrt(g2 - x2)*z_inv)
+    return (r2 - x2)*atan(sqrt(max(g2 - x2, 0.0))*z_inv)
 
 def V_horiz_torispherical(D: float, L: float, f: float, k: float, h: float, headonly: bool=False) -> float:
     r"""Calculates volume of a tank with torispherical heads, according to [1]_.
@@ -709,7 +716,7 @@ def V_horiz_torispherical(D: float, L: float, f: float, k: float, h: float, head
     R = 0.5*D
     R2 = R*R
     hh = h*h
-    Af = R2*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - hh)
+    Af = R2*_acos_level(R, h) - (R-h)*sqrt(h*(R + R - h))
     r = f*D
     alpha = asin((1.0 - 2.0*k)/(2.*(f - k)))
     cos_alpha = cos(alpha)
@@ -1694,7 +1701,7 @@ def V_tank(D: float, L: float, horizontal: bool=True, sideA: str | None=None, si
                 sideA_V = V_horiz_torispherical(D, L, sideA_f2, sideA_k2, D, headonly=True)
             if sideB == "torispherical":
                 sideB_V = V_horiz_torispherical(D, L, sideB_f2, sideB_k2, D, headonly=True)
-        Af = R*R*acos((R-D)/R) - (R-D)*sqrt(2.0*R*D - D*D)
+        Af = R*R*_acos_level(R, D) - (R-D)*sqrt(D*(R + R - D))
         lateral_V = L*Af
     else:
         # Bottom head
@@ -1778,7 +1785,7 @@ def SA_partial_cylindrical_body(L: float, D: float, h: float) -> float:
         return 0.0
     elif h > D:
         h = D
-    C = D*acos((D - h - h)/D)
+    C = D*_acos_level(0.5*D, h)
     return C*L
 
 
@@ -1825,7 +1832,7 @@ def A_partial_circle(D: float, h: float) -> float:
     elif h < 0.0:
         return 0.0
     R = 0.5*D
-    SA = R*R*acos((R - h)/R) - (R - h)*sqrt(2.0*R*h - h*h)
+    SA = R*R*_acos_level(R, h) - (R - h)*sqrt(h*(R + R - h))
     if SA < 0.0:
         SA = 0.0 # Catch trig errors
     return SA
@@ -1935,7 +1942,7 @@ def SA_partial_horiz_conical_head(D: float, a: float, h: float) -> float:
         return 0.0
     R = 0.5*D
     R_inv = 1.0/R
-    return sqrt(a*a + R*R)*R_inv*(R*R*acos((R-h)*R_inv) - (R-h)*sqrt(2.0*R*h - h*h))
+    return sqrt(a*a + R*R)*R_inv*(R*R*_acos_level(R, h) - (R-h)*sqrt(h*(R + R - h)))
 
 def _SA_partial_horiz_spherical_head_to_int(x: float, R2: float, a4: float, c1: float, c2: float) -> float:
     x2 = x*x
@@ -2264,16 +2271,10 @@ def _SA_partial_horiz_torispherical_head_int_1(x: float, b: float, c: float) ->
     x2 = sqrt(x1)
     x3 = -b + x0
     x4 = c*c
-    try:
-        x5 = 1.0/sqrt(x1 - x4)
-    except:
-        x5 = 1.0/csqrt(x1 - x4) # type: ignore
+    x5 = 1.0/csqrt(x1 - x4 + 0.0j)
     x6 = x3 + x4
     x7 = sqrt(b)
-    try:
-        x3_pow = x3**(-1.5)
-    except:
-        x3_pow = (x3+0j)**(-1.5)
+    x3_pow = (x3 + 0.0j)**(-1.5)
     ans = (x*cacos(c/x2) + x3_pow*x5*(-c*x1*csqrt(-x6*x6)*catan(x*x2/(csqrt(x3)*csqrt(x6)))
         + x6*x7*csqrt(-x1*x1)*catan(c*x*x5/x7))/csqrt(-x6/x1))
     # print('_SA_partial_horiz_torispherical_head_int_1', abs(ans.real))
@@ -2286,39 +2287,28 @@ def _SA_partial_horiz_torispherical_head_int_2(y: float, t2: float, s: float, c1
 #    y, t2, s, c1 = mpf(y), mpf(t2), mpf(s), mpf(c1)
     y = float(y)  # double check python float here to avoid numpy not erroring on sqrt
     y2 = y*y
-    try:
-        x10 = sqrt(t2 - y2)
-        try:
-            # Some tiny heights make the square root slightly under 0
-            x = (sqrt(c1 - y2 + (s+s)*x10)).real
-        except:
-            # Python 2 compat - don't take the square root of a negative number with no complex part
-            x = (csqrt(c1 - y2 + (s+s)*x10 + 0.0j)).real
-
-    except:
-        x10 = csqrt(t2 - y2+0.0j) # type: ignore
-        x = (csqrt(c1 - y2 + (s+s)*x10 + 0.0j)).real
-    try:
-        x0 = t2 - y2
-        x1 = s*x10.real
-        t10 = x1 + x1 + s*s + x0
-
-
-        # x3, x4 present a very nasty numerical problem.
-        # issue occurs when h == R, x3 is really equal to R**2 - 2*R*h + h**2
-        x3 = t10 - x*x
+    # Some tiny heights make the square roots slightly under 0; no reliance on
+    # exceptions here, as compiled code returns nan instead of raising them
+    x10 = csqrt(t2 - y2 + 0.0j)
+    x = (csqrt(c1 - y2 + (s+s)*x10)).real
+    x0 = t2 - y2
+    x1 = s*x10.real
+    t10 = x1 + x1 + s*s + x0
+
+    # x3, x4 present a very nasty numerical problem.
+    # issue occurs when h == R, x3 is really equal to R**2 - 2*R*h + h**2
+    x3 = t10 - x*x
+    ans = 0.0
+    if x3 > 0.0 and x0 != 0.0:
         x4 = sqrt(x3)
         # One solution is to use higher precision everywhere
-
-
-
-        ans = x4*sqrt(t2*t10/(x0*x3))*catan(x/x4).real
-    except:
-        ans = 0.0
+        x5 = t2*t10/(x0*x3)
+        if x5 > 0.0:
+            ans = x4*sqrt(x5)*atan(x/x4)
 #     ans = sqrt((t2* (s**2+t2-x**2+2.0*s* sqrt(t2-x**2)))/((t2-x**2)* (s**2+t2-x**2+2 *s* sqrt(t2-x**2)-y**2)))* sqrt(s**2+t2-x**2+2 *s* sqrt(t2-x**2)-y**2) *atan(y/sqrt(s**2+t2-x**2+2 *s* sqrt(t2-x**2)-y**2))
 #    print(float(y), float(t2), float(s), float(c1), float(ans.real))
 #    return float(ans.real)
-    return ans.real
+    return ans
 
 def _SA_partial_horiz_torispherical_head_int_3(y: float, x: float, s: float, t2: float) -> float:
     x2 = x*x
@@ -2930,7 +2920,7 @@ def V_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str | N
                 V += V_horiz_torispherical(D, L, sideA_f2, sideA_k2, h, headonly=True)
             if sideB == "torispherical":
                 V += V_horiz_torispherical(D, L, sideB_f2, sideB_k2, h, headonly=True)
-        Af = R*R*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - h*h)
+        Af = R*R*_acos_level(R, h) - (R-h)*sqrt(h*(R + R - h))
         V += L*Af
     else:
         max_h = L + sideA_a + sideB_a
@@ -3075,7 +3065,7 @@ def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str |
             SA += A_partial_circle(D, h)
         if sideB is None:
             SA += A_partial_circle(D, h)
-        SA += L*D*acos((D - h - h)/D)
+        SA += L*D*_acos_level(0.5*D, h)
     else:
         max_h = L + sideA_a + sideB_a
         if h > max_h:
-- 
2.43.0

