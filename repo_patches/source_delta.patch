From 71d68a422c5bfe78ba36777fc1ac7bae855f4b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 01/85] fix: Frank ipsi returned theta * u for u <= 0.01

---
 copulae/archimedean/frank.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 83a6a02..cf6be95 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -92,10 +92,10 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         m1 = big_mask & mid_mask
         m2 = big_mask & ~mid_mask
-        r[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
-        r[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
+        res[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
+        res[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
 
-        return np.log(r) if log else r
+        return np.log(res) if log else res
 
     def irho(self, rho: Array):  # pragma: no cover
         # TODO frank: add inverse rho
-- 
2.43.0


From 82fcb98714b9a4dea8db4ae0506fa4d5983e7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 02/85] fix: Frank psi overwrote its argument and used an
 uninitialised mask for nan

---
 copulae/archimedean/frank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index cf6be95..a549ba5 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -155,7 +155,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     def psi(self, s):
         assert not np.isnan(self.params), "Copula must have parameters to calculate psi"
 
-        s = np.asarray(s)
+        s = np.array(s, dtype=float)
         if self.params <= -36:
             return -log1pexp(-s - self.params) / self.params
         elif self.params < 0:
@@ -164,7 +164,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             return np.exp(-s)
         else:
             const = log1mexp(self.params)
-            m = np.less(s, const, where=~np.isnan(s))
+            m = s < const
 
             s[m] = np.nan
             s[~m] = -log1mexp(s[~m] - log1mexp(self.params)) / self.params
-- 
2.43.0


From db4e40569108e0ff98a479d2b40a1ee3a2e4aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 03/85] fix: Frank density was nan for theta <= 0

---
 copulae/archimedean/frank.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index a549ba5..292b4f8 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -136,8 +136,15 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         ok = valid_rows_in_u(u)
         res = np.repeat(np.nan, n)
+        if theta == 0:
+            res[ok] = 0
+            return res if log else np.exp(res)
 
         u_ = u[ok]
+        if theta < 0:
+            # C(u, v; theta) = v - C(1 - u, v; -theta)
+            theta = -theta
+            u_ = np.column_stack([1 - u_[:, 0], u_[:, 1]])
         u_sum = u_.sum(1)
         lp = log1mexp(theta)
         lpu = log1mexp(theta * u_)
-- 
2.43.0


From 576e4b0661d5fab564491971d42cb0674160ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 04/85] fix: Frank derivatives of tau and rho

---
 copulae/archimedean/frank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 292b4f8..f5bfd4b 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -64,14 +64,14 @@ class FrankCopula(AbstractArchimedeanCopula):
     def drho(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return 12 * (x / np.expm1(x) - 3 * debye1(x) + 2 * debye1(x)) / x ** 2
+        return 12 * (x / np.expm1(x) - 3 * debye2(x) + 2 * debye1(x)) / x ** 2
 
     @cast_input(['x'], optional=True)
     @squeeze_output
     def dtau(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return (x / np.expm1(x) + 1 - debye1(x) / x) * (2 / x) ** 2
+        return (x / np.expm1(x) + 1 - 2 * debye1(x)) * (2 / x) ** 2
 
     @cast_input(['u'], optional=True)
     @squeeze_output
-- 
2.43.0


From 59f96c70aa3e14f95815bd6e6087eac2994658e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 05/85] fix: Gumbel upper tail dependence

---
 copulae/archimedean/gumbel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c38cbfa..af619fa 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -166,8 +166,9 @@ class GumbelCopula(AbstractArchimedeanCopula):
                 tau[tau < 0] = 0
         return 1 / (1 - tau)
 
+    @property
     def lambda_(self):
-        return TailDep(0, 2 * 2 ** (1 / self.params))
+        return TailDep(0, 2 - 2 ** (1 / self.params))
 
     @property
     def params(self):
-- 
2.43.0


From acd4f26a0d785c8812bbfc9d7bfbccfa62eebf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 06/85] fix: Gumbel dAdu used xor for a power

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index af619fa..8bde75e 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -103,7 +103,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         expr4 = expr3 - 1
         expr5 = expr2 ** expr4
         expr6 = alpha - 1
-        expr7 = alpha * w ** expr6 - alpha * expr1 ^ expr6
+        expr7 = alpha * w ** expr6 - alpha * expr1 ** expr6
         expr8 = expr3 * expr7
         expr9 = expr6 - 1
         # value = expr4 ** expr5
-- 
2.43.0


From 783192306734bc4f0928ce2488d8c53b2c92a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 07/85] fix: Gumbel itau overwrote its argument

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 8bde75e..dc6cb93 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -163,7 +163,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         else:
             if np.any(tau < 0):
                 warnings.warn(warning_message)
-                tau[tau < 0] = 0
+                tau = np.maximum(tau, 0)
         return 1 / (1 - tau)
 
     @property
-- 
2.43.0


From a517ccdf94565e872f1344ed5c689219cd63b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 08/85] fix: Clayton dipsi was nan for negative theta

---
 copulae/archimedean/clayton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 4e6d950..32aa6e2 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -48,9 +48,9 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         t = self.params
 
         if degree == 1:
-            a = np.log(t) - (1 + t) * np.log(u)
+            a = np.log(abs(t)) - (1 + t) * np.log(u)
         else:
-            a = np.log(t) + np.log1p(t) - (t + 2) * np.log(u)
+            a = np.log(abs(t)) + np.log1p(t) - (t + 2) * np.log(u)
 
         return s * (a if log else np.exp(a))
 
-- 
2.43.0


From 725269a88ebb759baef6041aba8996ea59707db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 09/85] fix: Clayton density outside the unit cube is nan for
 positive theta too

---
 copulae/archimedean/clayton.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 32aa6e2..8b0710b 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -133,6 +133,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         else:
             p = np.log1p(theta * np.arange(1, d)).sum()
             log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * np.log1p(t)
+            log_pdf[~ok] = np.nan
 
         return log_pdf if log else np.exp(log_pdf)
 
-- 
2.43.0


From ecf508a65cfdebce72d5b5e8048e1ae91527e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 10/85] fix: Clayton generator at theta = 0 is the independence
 generator

---
 copulae/archimedean/clayton.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 8b0710b..06b3705 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -46,11 +46,12 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         s = 1 if log or degree % 2 == 0 else -1
         t = self.params
+        log_t = np.log(abs(t)) if t != 0 else 0.0  # theta = 0 is the independence generator -log(u)
 
         if degree == 1:
-            a = np.log(abs(t)) - (1 + t) * np.log(u)
+            a = log_t - (1 + t) * np.log(u)
         else:
-            a = np.log(abs(t)) + np.log1p(t) - (t + 2) * np.log(u)
+            a = log_t + np.log1p(t) - (t + 2) * np.log(u)
 
         return s * (a if log else np.exp(a))
 
@@ -75,7 +76,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = np.sign(self._theta) * (u ** -self._theta - 1)
+        v = np.sign(self._theta) * (u ** -self._theta - 1) if self._theta != 0 else -np.log(u)
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -140,6 +141,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['s'])
     @squeeze_output
     def psi(self, s: Array):
+        if self._theta == 0:
+            return np.exp(-s)
         return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
 
     @cast_output
-- 
2.43.0


From 4f7fccaba40612154068e738c725bdf79dfe4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 11/85] fix: Frank inverse generator at theta = 0 was nan

---
 copulae/archimedean/frank.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index f5bfd4b..8b12a8a 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -52,7 +52,9 @@ class FrankCopula(AbstractArchimedeanCopula):
         s = 1 if log or degree % 2 == 0 else -1
 
         ut = u * self.params
-        if degree == 1:
+        if self.params == 0:
+            v = 1 / u ** degree  # independence
+        elif degree == 1:
             v = self.params / np.expm1(ut)
         else:
             v = (self.params ** 2 * np.exp(ut)) / np.expm1(ut) ** 2
@@ -76,6 +78,10 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['u'], optional=True)
     @squeeze_output
     def ipsi(self, u, log=False):
+        if self.params == 0:
+            v = -np.log(u)  # independence
+            return np.log(v) if log else v
+
         r = np.asarray(u) * self.params
 
         res = np.copy(r)
-- 
2.43.0


From 9d8b58dc30ac00362e6b74dd9e78cd9aa330f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 12/85] fix: Clayton density at theta = 0 was the log density

---
 copulae/archimedean/clayton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 06b3705..6b9076f 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -121,7 +121,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return log_pdf
         elif theta == 0:
             log_pdf[ok] = 0
-            return log_pdf
+            return log_pdf if log else np.exp(log_pdf)
 
         lu = np.log(u).sum(1)
         t = self.ipsi(u).sum(1)
-- 
2.43.0


From 6ea0f2989b4e353b760097841fca93515f04abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:20 +0000
Subject: [PATCH 13/85] fix: Frank itau of zero failed to converge

---
 copulae/archimedean/frank.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 8b12a8a..05f97fd 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -112,10 +112,8 @@ class FrankCopula(AbstractArchimedeanCopula):
     def itau(self, tau):
         res = np.array([find_root(lambda x: self._tau(x) - t,
                                   2.2e-16 if t > 0 else -1e20,
-                                  1e20 if t > 0 else -2.2e-16) for t in tau.ravel()])
-        res = res.reshape(tau.shape)
-        res[tau == 0] = tau[tau == 0]
-        return res
+                                  1e20 if t > 0 else -2.2e-16) if t != 0 else 0. for t in tau.ravel()])
+        return res.reshape(tau.shape)
 
     @property
     def lambda_(self):  # pragma: no cover
-- 
2.43.0


From 8bf51490b2012f3a8f3848c766bd0f7faeaa7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:20 +0000
Subject: [PATCH 14/85] fix: Gaussian lambda_ is a property like every other
 copula's

---
 copulae/elliptical/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 7ea67f4..f466d28 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -57,6 +57,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def irho(self, rho: Array):
         return np.sin(np.array(rho) * np.pi / 6) * 2
 
+    @property
     def lambda_(self):
         res = (self._rhos == 1).astype(float)
         return TailDep(res, res)
-- 
2.43.0


From 01b8dbf9003e6e00b4d721a9b60e0573cd2e3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 15/85] fix: Gumbel A and dAdu failed on a scalar

---
 copulae/archimedean/gumbel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index dc6cb93..ca3de83 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -71,7 +71,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
         """
         bnd = (w == 0) | (w == 1)
         r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
-        r[bnd] = 1
+        if np.ndim(r) > 0:
+            r[bnd] = 1
         return r
 
     @cast_input(['w'])
@@ -113,7 +114,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
                alpha * expr3 * expr5 * expr6 * (w ** expr9 + expr1 ** expr9)
 
         if isinstance(grad, float) and isinstance(hess, float):
-            return grad, hess
+            return np.array([grad, hess])
         else:
             res = np.zeros((len(grad), 2))
             res[:, 0] = grad
-- 
2.43.0


From b584826e4dcd0e22d84cdc589017564ef098f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 16/85] fix: Gumbel dtau refused whole numbers

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index ca3de83..d694125 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -144,7 +144,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def dtau(self, x=None):
         if x is None:
             x = self.params
-        return x ** -2
+        return x ** -2.0
 
     @cast_input(['u'])
     @squeeze_output
-- 
2.43.0


From 0ffafbc77e78bcc6c0842675d99b258cb8bfe870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 17/85] fix: Student tail dependence missed the factor 1 / (1 +
 rho)

---
 copulae/elliptical/student.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2e3b846..a045463 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -127,7 +127,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         if np.isinf(df):
             res = (self._rhos == 1).astype(float)
         else:
-            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho)), df=df + 1)
+            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho) / (1 + rho)), df=df + 1)
 
         return TailDep(res, res)
 
-- 
2.43.0


From 88e1f0e6f3c8360ece765953cfefde1b409ee400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 18/85] fix: Clayton constructor accepted parameters below -1

---
 copulae/archimedean/clayton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 6b9076f..9f4bf1d 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -35,7 +35,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             Dimension of the copula
         """
         super().__init__(dim, theta, 'Clayton')
-        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension == 2'
+        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension > 2'
+        assert not theta < -1, 'Clayton Copula parameter must be >= -1 when dimension == 2'
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
-- 
2.43.0


From d15e62896d1e1f34919aac08e801f10b22ec7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 19/85] fix: Student copula accepted non-positive degrees of
 freedom and shared the array it was given

---
 copulae/elliptical/student.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index a045463..fc3b034 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -45,6 +45,9 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         """
         super().__init__(dim, 'Student')
 
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
+
         n = sum(range(dim))
         self._df = df
         self._rhos = np.zeros(n)
@@ -152,19 +155,19 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @params.setter
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
-            self._df = params.df
-            self._rhos = params.rho
+            df, rhos = params.df, np.ravel(params.rho)
         else:
             params = np.asarray(params)
-            if len(params) != 1 + sum(range(self.dim)):
-                raise ValueError('Incompatible parameters for student copula')
+            df, rhos = params[0], params[1:]
+
+        if len(rhos) != sum(range(self.dim)):
+            raise ValueError('Incompatible parameters for student copula')
 
-            df = params[0]
-            if df <= 0:
-                raise ValueError('Degrees of freedom must be greater than 0')
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
-            self._df = df
-            self._rhos = params[1:]
+        self._df = df
+        self._rhos = np.array(rhos, dtype=float)
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From 925f0c6d559cd6f33a766997c23ed2db7f45d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 20/85] fix: Gaussian copula accepted parameters of the wrong
 length and shared the array it was given

---
 copulae/elliptical/gaussian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index f466d28..cced9c1 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -71,7 +71,10 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
         if isinstance(params, (float, int)):
             params = np.repeat(params, len(self._rhos))
-        self._rhos = np.asarray(params)
+        params = np.array(params, dtype=float)
+        if params.shape != (sum(range(self.dim)),):
+            raise ValueError('Incompatible parameters for gaussian copula')
+        self._rhos = params
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From 03fa17fcdfd3ca00ad8399eb8dd7a6913079e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 21/85] fix: inversion fit overwrote parameter arrays read
 earlier

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 1536e65..2621b85 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -37,7 +37,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
             # itau and irho must fix degree of freedom
             copula.params = StudentParams(copula.params.df, estimate)
         else:
-            copula.params[:] = estimate
+            copula.params = estimate
 
     elif is_archimedean(copula):
         estimate = copula.params = np.mean(icor)
-- 
2.43.0


From cc3688877fa2d39a0e5c931e14a597a6981665b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 22/85] fix: assigning elements overwrote parameter arrays read
 earlier

---
 copulae/elliptical/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 802308f..3c6c62f 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -95,6 +95,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
             self._rhos = value[tri_indices(d, 1, 'lower')]
             return
 
+        self._rhos = np.array(self._rhos, dtype=float)  # arrays handed out earlier keep their values
         if isinstance(index, int):
             self._rhos[index] = value
 
-- 
2.43.0


From 7f645ecf5615fe585af9250a7d06330067b7d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 23/85] fix: assigning a missing correlation left a broken
 copula

---
 copulae/elliptical/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 3c6c62f..74ab1f3 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -81,7 +81,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         d = self.dim
 
         if np.isscalar(value):
-            if value < -1 or value > 1:
+            if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
             value = np.asarray(value)
-- 
2.43.0


From 885cd1ec56b00fe212878feef4845bb3db5800b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 24/85] fix: assigning to part of a row or column changed all
 of it

---
 copulae/elliptical/abstract.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 74ab1f3..38238a1 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -110,12 +110,13 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
                 self[:] = value
                 return
             elif isinstance(x, slice) or isinstance(y, slice):
-                value = np.repeat(value, d) if np.isscalar(value) else np.asarray(value)
-                if len(value) != d:
-                    raise ValueError(f"value must be a scalar or be a vector with length {d}")
+                rows = range(*(x if isinstance(x, slice) else y).indices(d))  # elements the slice addresses
+                value = np.repeat(value, len(rows)) if np.isscalar(value) else np.asarray(value)
+                if len(value) != len(rows):
+                    raise ValueError(f"value must be a scalar or be a vector with length {len(rows)}")
 
                 # one of the item is
-                for i, v in enumerate(value):
+                for i, v in zip(rows, value):
                     idx = (i, y) if isinstance(x, slice) else (x, i)
                     if idx[0] == idx[1]:  # skip diagonals
                         continue
-- 
2.43.0


From 9d558f76eede01ab7cc274bd651b31717ea3c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 25/85] fix: Gaussian cdf was nan on the lower faces

---
 copulae/elliptical/gaussian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index cced9c1..27452b3 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -50,7 +50,10 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def cdf(self, x: np.ndarray, log=False):
         q = norm.ppf(x)
         sigma = self.sigma
-        return mvn.logcdf(q, cov=sigma) if log else mvn.cdf(q, cov=sigma)
+        p = mvn.logcdf(q, cov=sigma) if log else mvn.cdf(q, cov=sigma)
+        # the numerical integration is unreliable at minus infinity
+        lower_face = np.isneginf(q).any(1) & ~np.isnan(q).any(1)
+        return np.where(lower_face, -np.inf if log else 0., p)
 
     @cast_input(['rho'])
     @squeeze_output
-- 
2.43.0


From 06233cbae06f336775121e119b1a8e7e971659a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 26/85] fix: to_marginals failed at one

---
 copulae/empirical/empirical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9171d17..8cc8051 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -255,7 +255,7 @@ class EmpiricalCopula(BaseCopula[None]):
         """
         # because it is pseudo-observations, and already ranked within the columns, we can just
         # multiply by the number of rows in the original data set to get the position rank
-        index = np.array(np.floor(u * len(original)), int)
+        index = np.array(np.minimum(np.floor(u * len(original)), len(original) - 1), int)
         data = np.array(original)
         source = np.take_along_axis(data, data.argsort(axis=0), axis=0)
 
-- 
2.43.0


From f1889ece6e2a70641772d7f916d16873104e4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:23 +0000
Subject: [PATCH 27/85] fix: goodness-of-fit test ignored fit_ties

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index d5b46ac..c4bf755 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -123,7 +123,8 @@ class GofParametricBootstrap:
 
     def t_stat(self, copula: Copula, data: GofData):
         """Calculates the T statistic"""
-        copula.fit(data.fitted_pobs, **self.fit_options)
+        # the data are pseudo-observations already, ranking them again would undo the chosen tie method
+        copula.fit(data.fitted_pobs, **{"to_pobs": False, **self.fit_options})
         return gof_t_stat(copula, data.pobs)
 
     def new_copula(self) -> Copula:
-- 
2.43.0


From 7d4643e9bc56cb5bca20676c84904063d61ed6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:23 +0000
Subject: [PATCH 28/85] fix: goodness-of-fit bootstrap with ties drew
 comonotone samples

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index c4bf755..669f4e0 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -132,13 +132,14 @@ class GofParametricBootstrap:
 
     def _sort_data_by_column_inplace(self, data: np.ndarray):
         """
-        Use pre-calculated duplicate ranks array to sort random data with. This ensures that the
-        resulting data (column-by-column) is ordered from lowest to highest
+        Use pre-calculated duplicate ranks array to give each column of the random data the ties of the
+        corresponding column of the original data. The k-th smallest value of a column is tied in the same
+        way as the k-th smallest value of the original column, and every value stays in its row.
         """
         assert data.ndim == 2 and self.data.duplicated_ranks_array.shape == data.shape
-        data.sort(0)
         for i in range(data.shape[1]):
-            data[:, i] = data[self.data.duplicated_ranks_array[:, i], i]
+            order = np.argsort(data[:, i])
+            data[order, i] = data[order[self.data.duplicated_ranks_array[:, i]], i]
 
         return data
 
-- 
2.43.0


From 651c7dd84d5539a359b3117a03ed60df84f5347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 29/85] fix: GMCParam.to_vector changed the parameter and
 failed for one cluster

---
 copulae/mixtures/gmc/parameter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0db3f55..46ad507 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -38,12 +38,12 @@ class GMCParam:
         Converts GMCParam to a 1-D vector representation. Vector representation enables GMCParam to be
         updated via scipy's optimize module.
         """
-        self.prob[self.prob == 0] += 1e-5
-        self.prob[self.prob == 1] -= 1e-5
-        self.prob /= self.prob.sum()
+        prob = np.array(self.prob, dtype=float)
+        prob[prob == 0] += 1e-5
+        prob[prob == 1] -= 1e-5
 
         return np.array([
-            *np.log(self.prob / (1 - self.prob)),
+            *np.log(prob / (1 - prob)),
             *self.means.ravel(),
             *np.ravel([c[np.triu_indices(self.n_dim)] for c in self.covs])
         ])
-- 
2.43.0


From c0b537678c8c9af0b3d01c44713adbc28aec88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 30/85] fix: Gaussian mixture log density was not the logarithm
 of the density

---
 copulae/mixtures/gmc/gmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 541b46d..a4bca85 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -121,9 +121,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logcdf(x, mean, cov) if log else mvn.cdf(x, mean, cov))
+            out += prob * mvn.cdf(x, mean, cov)
 
-        return out
+        return np.log(out) if log else out
 
     @property
     def clusters(self):
@@ -269,9 +269,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logpdf(x, mean, cov) if log else mvn.pdf(x, mean, cov))
+            out += prob * mvn.pdf(x, mean, cov)
 
-        return out
+        return np.log(out) if log else out
 
     @cast_output
     def random(self, n: int, seed: int = None):
-- 
2.43.0


From a6b368385ad7ab8ef7027861028eb7647b330ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 31/85] fix: EM summary reported the last log-likelihood with
 the best parameters

---
 copulae/mixtures/gmc/estimators/em.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index a422980..ebbaecf 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -153,4 +153,7 @@ class LogLik:
 
     @property
     def best_log_lik(self):
-        return self._gmcm[-1]
+        if self.criteria in ('GMCM', 'LI'):
+            return self._gmcm[int(np.argmax(self._gmcm))]
+        else:
+            return self._gmcm[-1]
-- 
2.43.0


From 4c8121220df87f68b4000cb24dd40a0cb4082abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 32/85] fix: Gaussian mixture quantile function failed at 0 and
 1

---
 copulae/mixtures/gmc/marginals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/marginals.py b/copulae/mixtures/gmc/marginals.py
index 526218f..d8bb009 100644
--- a/copulae/mixtures/gmc/marginals.py
+++ b/copulae/mixtures/gmc/marginals.py
@@ -51,7 +51,7 @@ def gmm_marginal_ppf(q: np.ndarray, param: GMCParam, resolution=2000, spread=5,
     ppf = np.empty_like(q)
     for i in range(param.n_dim):
         # does an inverse cdf, ppf, to get the marginals
-        ppf[:, i] = interp1d(dist[:, i], grid[:, i], fill_value='interpolate')(q[:, i])
+        ppf[:, i] = interp1d(dist[:, i], grid[:, i], bounds_error=False, fill_value=(-np.inf, np.inf))(q[:, i])
 
     is_nan = np.isnan(ppf)
     if is_nan.any():
-- 
2.43.0


From 12d902c08b1b20372e3998954f34affad7bdc93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 33/85] fix: MarginalCopula truncated the margins of
 whole-number data

---
 copulae/marginal/marginal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 3f71091..0f6cd93 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -94,7 +94,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def cdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty(x.shape)
         for i, m in enumerate(self._marginals):
             u[:, i] = m.cdf(x[:, i])
 
@@ -131,7 +131,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def pdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty(x.shape)
         density_margin = 0 if log else 1
 
         for i, m in enumerate(self._marginals):
-- 
2.43.0


From 381e43a9008d3341ad01ea5db20d1ad9e36f5e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 34/85] fix: MarginalCopula could not sample when the inner
 copula was fitted on a data frame

---
 copulae/marginal/marginal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 0f6cd93..58aa52c 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -147,7 +147,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-        u = self._copula.random(n, seed)
+        u = np.asarray(self._copula.random(n, seed))
         x = np.empty_like(u)
         for i, m in enumerate(self._marginals):
             x[:, i] = m.ppf(u[:, i])
-- 
2.43.0


From be5c231ff216aca38a77086a898279db13ba019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 35/85] fix: MarginalCopula added default parameters to the
 description given

---
 copulae/marginal/univariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index c4ada04..d44b26f 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -20,7 +20,7 @@ class DistDetail(TypedDict, total=False):
 
 def create_univariate(details: DistDetail) -> rv_frozen:
     dist = get_marginal_class(details)
-    parameters = details.get('parameters', {})
+    parameters = dict(details.get('parameters', {}))
     for p in signature(getattr(dist, "_parse_args")).parameters.values():
         if p.default is Parameter.empty and p.name not in parameters:
             parameters[p.name] = 0.5
-- 
2.43.0


From 83e2dbcc862073a46661fd86d6459517e1b3bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 36/85] fix: cast_input ignored keyword arguments

---
 copulae/utility/annotations/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 7b7db12..28a02b6 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -32,7 +32,7 @@ class cast_input:
                 args[i] = self.cast(a, arg_name)
 
         for arg_name, a in kwargs.items():
-            if arg_name is self.arguments:
+            if arg_name in self.arguments:
                 kwargs[arg_name] = self.cast(a, arg_name)
 
         return method(*args, **kwargs)
-- 
2.43.0


From e6e51825abf2ad1b7b7531d241af81645c47e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 37/85] fix: pdf and cdf failed when the points were given by
 keyword

---
 copulae/utility/annotations/reshape.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 28a02b6..7128e99 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -67,8 +67,13 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     As a side effect, also reorders the DataFrame or Series input if the fitted data was a DataFrame.
     With a fitted DataFrame, the _column will be present to allow for ordering
     """
+    args, kwargs = list(args), dict(kwargs)
+    name = getfullargspec(method).args[1]
+    if len(args) == 0:
+        if name not in kwargs:
+            return method(*args, **kwargs)  # raises the usual TypeError
+        args = [kwargs.pop(name)]
     x = args[0]
-    args = list(args)
 
     columns = getattr(instance, "_columns", None)
     if isinstance(x, pd.Series):
-- 
2.43.0


From 500e821db2d4a3b6441297daf3fed3c2099766aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 38/85] fix: Frank pdf failed on data frames for negative theta

---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 05f97fd..5345d59 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -144,7 +144,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             res[ok] = 0
             return res if log else np.exp(res)
 
-        u_ = u[ok]
+        u_ = np.asarray(u)[ok]
         if theta < 0:
             # C(u, v; theta) = v - C(1 - u, v; -theta)
             theta = -theta
-- 
2.43.0


From 4ec1c8f8a596d0bb2960a4f139aac68c27323b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 39/85] fix: Gumbel pdf failed on data frames

---
 copulae/archimedean/gumbel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index d694125..a18d333 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -190,6 +190,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def pdf(self, u: np.ndarray, log=False):
         assert not np.isnan(self.params), "Copula must have parameters to calculate parameters"
 
+        u = np.asarray(u)
         n, d = u.shape
 
         theta = self.params
-- 
2.43.0


From b0a1e5c984221826f8dea10fb9bc1210e62329d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 40/85] fix: empirical beta pdf failed on data frames

---
 copulae/empirical/empirical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 8cc8051..cceaa21 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -157,6 +157,7 @@ class EmpiricalCopula(BaseCopula[None]):
 
         data_rank = rank_data(self.data, 1, self.ties)
         n = len(self.data)
+        u = np.asarray(u)
 
         if log:
             return np.array([
-- 
2.43.0


From 5c2a678a6176b00752f8241fb6ad686c35d5fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 41/85] fix: fit printed a data frame summary although verbose
 was 0

---
 copulae/copula/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index aa5c40b..11beade 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -135,7 +135,8 @@ class BaseCopula(ABC, Generic[Param]):
 
         if isinstance(data, pd.DataFrame):
             self._columns = list(data.columns)
-            print(data.describe())
+            if verbose > 0:
+                print(data.describe())
 
         return self
 
-- 
2.43.0


From 2ddaea833d0275caf78f13b8bfa7cf1eee38b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 42/85] fix: Clausen function was wrong from 2 pi on

---
 copulae/special/_specfunc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cbdceda..45a4498 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -170,7 +170,7 @@ cdef double angle_restrict_pos_err(double theta) nogil:
     cdef:
         double two_pi = 2 * PI
         double y = 2 * cm.floor(theta / two_pi)
-        double r = theta - y * 2 * two_pi
+        double r = theta - y * PI
 
     if cm.fabs(theta) > 0.0625 / DBL_EPSILON:
         return cm.NAN
-- 
2.43.0


From c0d7ff124219c0a44f1c0fe7e54483375d0e6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 43/85] fix: special functions overwrote their array arguments

---
 copulae/special/_specfunc.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index 45a4498..5218a38 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -82,7 +82,7 @@ cdef:
 def clausen(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -98,7 +98,7 @@ def clausen(x, bint threaded=True):
 def debye_1(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -114,7 +114,7 @@ def debye_1(x, bint threaded=True):
 def debye_2(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -130,7 +130,7 @@ def debye_2(x, bint threaded=True):
 def dilog(x, bint threaded):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -149,8 +149,8 @@ def dilog_complex(r, theta, bint threaded):
 
     cdef:
         ComplexResult c
-        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.ravel()
-        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.flatten()
+        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.flatten()
         int n = r_vec.size
 
     assert r.shape == theta.shape, "Radius of complex vector must have same shape as the angled part"
-- 
2.43.0


From ae941a1dc5c12046105d72bac47884023f6e077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:45 +0000
Subject: [PATCH 44/85] fix: Frank dtau and drho of a matrix mixed up its
 elements

---
 copulae/archimedean/frank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 5345d59..5ded634 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -248,6 +248,7 @@ def debye1(x):
     --------
     :code:`copulae.special.debye.debye_1`: The debye order 1 function
     """
+    shape = np.shape(x)
     x = np.asarray(x, np.float_).ravel()
     fin = np.isfinite(x)
     d = np.ravel(np.abs(x))
@@ -265,7 +266,7 @@ def debye1(x):
 
         d = np.ravel(d)
         d[x < 0] -= x[x < 0] / 2
-        return d.item(0) if d.size == 1 else d
+        return d.item(0) if d.size == 1 else d.reshape(shape)
 
 
 def debye2(x):
@@ -286,6 +287,7 @@ def debye2(x):
     --------
     :code:`copulae.special.debye.debye_2`: The debye order 2 function
     """
+    shape = np.shape(x)
     x = np.asarray(x, np.float_).ravel()
     fin = np.isfinite(x)
     d = np.ravel(np.abs(x))
@@ -303,4 +305,4 @@ def debye2(x):
 
         d = np.ravel(d)
         d[x < 0] -= 2 / 3 * x[x < 0]
-        return d.item(0) if d.size == 1 else d
+        return d.item(0) if d.size == 1 else d.reshape(shape)
-- 
2.43.0


From 9d08357c416a3dd748be52218cb2c42864760241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:48 +0000
Subject: [PATCH 45/85] fix: Gaussian mixture parameters followed later changes
 of the caller's arrays

---
 copulae/mixtures/gmc/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 46ad507..9f5d795 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -85,7 +85,7 @@ class GMCParam:
 
     @prob.setter
     def prob(self, value: Union[C[float], np.ndarray]):
-        value = np.ravel(value)
+        value = np.array(value, dtype=float).ravel()
 
         if len(value) != self.n_clusters:
             raise GMCParamError(f"probability vector should have {self.n_clusters} components")
@@ -100,7 +100,7 @@ class GMCParam:
 
     @means.setter
     def means(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.array(value, dtype=float)
 
         shape = self.n_clusters, self.n_dim
         if value.shape != shape:
-- 
2.43.0


From 5cbd821b2ed859fc523fbf5862ed5901fab777dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:49 +0000
Subject: [PATCH 46/85] fix: tail density of the stable distribution overwrote
 its argument

---
 copulae/stats/stable/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 0e00920..c18a33a 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -193,7 +193,7 @@ def pareto(x, alpha, beta, log=False):
 
     neg = x < 0
     if np.any(neg):
-        x[neg] *= -1
+        x = np.where(neg, -x, x)
         beta = np.repeat(beta, len(x))
         beta[neg] *= -1
 
-- 
2.43.0


From 63436fdee92f6bed9501d0a54fa2d050f55e05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 47/85] fix: Frank samples in more than two dimensions were nan
 or followed the wrong frailty distribution

---
 copulae/stats/log.py | 61 +++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/copulae/stats/log.py b/copulae/stats/log.py
index 4d6864d..91cc32c 100644
--- a/copulae/stats/log.py
+++ b/copulae/stats/log.py
@@ -5,41 +5,26 @@ from copulae.types import Numeric
 
 def random_log_series_ln1p(alpha: float, size: Numeric = 1):
     """"""
-    if alpha < -3:
-        # random variate following the logarithmic (series) distribution Log(alpha)
-        p = - alpha / np.log(1 - np.expm1(alpha))
-        u = np.random.uniform(size=size)
-
-        up = u > p
-        x = 1
-        while np.any(up):
-            u[up] -= p
-            x += 1
-            p *= alpha * (x - 1) / x
-
-            up = u > p
-        return u
-    else:
-        # random variate following the logarithmic (series) distribution Log(1 - e^h)
-        e = -np.expm1(alpha)
-        u1 = np.random.uniform(size=size)
-        u2 = np.random.uniform(size=size)
-
-        h = u2 * alpha
-        q = -np.expm1(h)
-        log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
-
-        mask1 = u1 > e
-        mask2 = u1 < q * q
-        mask3 = mask2 & (log_q == 0)
-        mask4 = mask2 & (log_q != 0)
-        mask5 = ~mask2 & (u1 > q)
-        mask6 = ~mask2 & (u1 <= q)
-
-        u1[mask6] = 2
-        with np.errstate(invalid='ignore'):
-            u1[mask4] = 1 + np.floor(np.log(u1 / log_q))[mask4]
-        u1[mask3] = np.inf
-        u1[mask1 | mask5] = 1
-
-        return u1
+    # random variate following the logarithmic (series) distribution Log(1 - e^h)
+    e = -np.expm1(alpha)
+    u1 = np.random.uniform(size=size)
+    u2 = np.random.uniform(size=size)
+
+    h = u2 * alpha
+    q = -np.expm1(h)
+    log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
+
+    mask1 = u1 > e
+    mask2 = u1 < q * q
+    mask3 = mask2 & (log_q == 0)
+    mask4 = mask2 & (log_q != 0)
+    mask5 = ~mask2 & (u1 > q)
+    mask6 = ~mask2 & (u1 <= q)
+
+    u1[mask6] = 2
+    with np.errstate(invalid='ignore'):
+        u1[mask4] = 1 + np.floor(np.log(u1) / log_q)[mask4]
+    u1[mask3] = np.inf
+    u1[mask1 | mask5] = 1
+
+    return u1
-- 
2.43.0


From b771009e8431a7d380bcf2faccf554457d1f24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 48/85] fix: Frank samples in more than two dimensions were all
 ones for parameters above 37

---
 copulae/archimedean/frank.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 5ded634..b91b3e1 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -178,7 +178,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             m = s < const
 
             s[m] = np.nan
-            s[~m] = -log1mexp(s[~m] - log1mexp(self.params)) / self.params
+            s[~m] = -np.log(np.exp(-s[~m] - self.params) - np.expm1(-s[~m])) / self.params
             return s
 
     @cast_output
@@ -195,8 +195,8 @@ class FrankCopula(AbstractArchimedeanCopula):
             return u
 
         # alpha too large
-        if log1mexp(self.params) == 0:
-            return np.ones((n, self.dim))
+        if np.exp(-self.params) == 0:
+            return np.repeat(u[:, :1], self.dim, axis=1)
 
         fr = random_log_series_ln1p(-self.params, n)[:, None]
         return self.psi(-np.log(u) / fr)
-- 
2.43.0


From bf2a99e623cc013ea46bae23dbec7840c294bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 49/85] fix: Clayton random failed for parameter -1

---
 copulae/archimedean/clayton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 9f4bf1d..0ffee53 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -157,6 +157,9 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         r = random_uniform(n, self.dim, seed)
         if self.dim == 2:
+            if theta == -1:
+                r[:, 1] = 1 - r[:, 0]
+                return r
             r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** (-theta / (theta + 1)) - 1) + 1) ** (-1 / theta)
             return r
         else:
-- 
2.43.0


From 7cd72d316346c447e7b70f08a1e96f120e4458d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 50/85] fix: elliptical random of one observation lost an axis
 and failed with column names

---
 copulae/elliptical/gaussian.py | 2 +-
 copulae/elliptical/student.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 27452b3..fffb509 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -91,7 +91,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvn.rvs(cov=self.sigma, size=n, random_state=seed)
-        return norm.cdf(r)
+        return norm.cdf(r).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index fc3b034..4e0edb8 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -182,7 +182,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvt.rvs(cov=self.sigma, df=self._df, size=n, random_state=seed)
-        return t.cdf(r, self._df)
+        return t.cdf(r, self._df).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From 5a48ac695dceecfbe591cc6c4fe8b24e26fcaa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 51/85] fix: seeded multivariate t samples used the same stream
 for normal and chi-square draws

---
 copulae/stats/_multivariate_t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 228e058..93c95af 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -183,13 +183,13 @@ class multivariate_t:
         dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
 
         if type_.casefold() == 'kshirsagar':
-            r = mvn.rvs(mean, cov, size, random_state)
+            r = mvn.rvs(mean, cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size, random_state)
+            r = mvn.rvs(np.zeros(len(cov)), cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
-- 
2.43.0


From 22286ef9276b8d30df5e03db83ad555a5d82a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 52/85] fix: the fit summary reported the log-likelihood times
 the optimiser scale

---
 copulae/copula/estimator/max_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 9ae5d15..8bab675 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -65,4 +65,4 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         estimate = res['x']
         copula.params = estimate
 
-    return FitSummary(estimate, "Maximum likelihood", -res['fun'], len(data), optim_options, res)
+    return FitSummary(estimate, "Maximum likelihood", -res['fun'] / scale, len(data), optim_options, res)
-- 
2.43.0


From 1dc81cc2b5d5ea0145c8ee4ab7c02eb9a9607f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 53/85] fix: inversion fits ranked the data again for the
 log-likelihood

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 2621b85..41e3b94 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -45,7 +45,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
         raise NotImplementedError(f"Have not developed for '{copula.name} copula'")
 
     method = f"Inversion of {'Spearman Rho' if type_ == 'irho' else 'Kendall Tau'} Correlation"
-    return FitSummary(estimate, method, copula.log_lik(data), len(data))
+    return FitSummary(estimate, method, copula.log_lik(data, to_pobs=False), len(data))
 
 
 def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
-- 
2.43.0


From 52eb67b9418949c66fbef00877d9b20332523522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 54/85] fix: inversion fits of bivariate elliptical copulas
 failed

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 41e3b94..84735ad 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -79,6 +79,6 @@ def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
         raise ValueError("Correlation Inversion must be either 'itau' or 'irho'")
 
     if is_elliptical(copula):
-        theta = near_psd(create_cov_matrix(theta))[indices]
+        theta = near_psd(create_cov_matrix(np.atleast_1d(theta)))[indices]
 
     return theta
-- 
2.43.0


From 04eab8f1e1eca17a95b1eb3f1ad85923c754c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 55/85] fix: fitting wrote the default method into the caller's
 optimiser options

---
 copulae/copula/estimator/estimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index e74545b..08be94a 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -146,6 +146,7 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
     def method_is(method: str):
         return options['method'].casefold() == method.casefold()
 
+    options = dict(options)  # the caller's options stay as they are
     max_iter = min(len(data) * 250, 20000)
     disp = verbose >= 2
 
-- 
2.43.0


From d07508c437de55757983178fc2185606d2577400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 56/85] fix: fitting with trust-constr failed: its options were
 passed as arguments

---
 copulae/copula/estimator/estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 08be94a..0f7e393 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -203,9 +203,11 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
         }, options)
     elif method_is('trust-constr'):
         return merge_dict({
-            'maxiter': max_iter,
-            'disp': disp,
-            'bounds': bounds
+            'bounds': bounds,
+            'options': {
+                'maxiter': max_iter,
+                'disp': disp,
+            }
         }, options)
     else:
         return options
-- 
2.43.0


From de939889763ffd6af5776746827cc13eb75e95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 57/85] fix: the starting point was checked on data ranked
 again

---
 copulae/copula/estimator/estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 0f7e393..23d34b6 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -120,7 +120,7 @@ def initial_params(copula: Copula, data: np.ndarray, x0: np.ndarray):
 
     try:
         start = estimate_corr_inverse_params(copula, data, 'itau').params
-        ll = copula.log_lik(data)
+        ll = copula.log_lik(data, to_pobs=False)
 
         if np.isfinite(ll):
             return start
@@ -131,7 +131,7 @@ def initial_params(copula: Copula, data: np.ndarray, x0: np.ndarray):
                 while start < 0:
                     start += .2
                     copula.params = start
-                    if np.isfinite(copula.log_lik(data)):
+                    if np.isfinite(copula.log_lik(data, to_pobs=False)):
                         break
 
             if not np.isnan(ll) and np.isinf(ll):
-- 
2.43.0


From d7cb1b434428f36c19ff4915c85e5f42fd14ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 58/85] fix: fitting a Student copula with fixed degrees of
 freedom failed with options and did not hold them

---
 copulae/elliptical/student.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 4e0edb8..732004e 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -111,9 +111,11 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         if fix_df:
-            if optim_options is None:
-                optim_options = {'constraints': []}
-            optim_options['constraints'].append({'type': 'eq', 'fun': lambda x: x[0] - self._df})  # df doesn't change
+            optim_options = dict(optim_options or {})
+            constraints = optim_options.get('constraints', [])
+            constraints = [constraints] if isinstance(constraints, dict) else list(constraints)
+            df = self._df  # df doesn't change
+            optim_options['constraints'] = [*constraints, {'type': 'eq', 'fun': lambda x: x[0] - df}]
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
-- 
2.43.0


From b1c35d31b7d5839b1b87ed76d8688ce6f0d645b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 59/85] fix: inversion fit summaries could not be shown as html

---
 copulae/copula/estimator/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/summary.py b/copulae/copula/estimator/summary.py
index e738059..03ed579 100644
--- a/copulae/copula/estimator/summary.py
+++ b/copulae/copula/estimator/summary.py
@@ -45,7 +45,7 @@ class FitSummary(SummaryType):
 
     def _repr_html_(self):
         portions = []
-        for s, r in zip_longest(self.setup.items(), self.results.items()):
+        for s, r in zip_longest((self.setup or {}).items(), (self.results or {}).items()):
             (sk, sv) = (None, None) if s is None else s
             (rk, rv) = (None, None) if r is None else r
             portions.append('<tr>' + ''.join(f"<td>{i}</td>" for i in (sk, sv, rk, rv)) + '</tr>')
-- 
2.43.0


From 74efac8ee5215633ea2dd9b53cf3eb5245dc0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 60/85] fix: polynomials failed on matrices and lost the
 imaginary part of complex points

---
 copulae/special/special_func.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 1754d3a..e59bbe4 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -249,16 +249,10 @@ def polyn_eval(coef, x) -> Union[float, np.ndarray]:
 
     m = len(coef)
 
-    res = np.zeros(len(x), np.float64)
-    for i, xi in enumerate(x):
-        if m == 1:
-            r = coef[0]
-        else:
-            r = coef[-1]
-            for j in coef[:-1][::-1]:
-                r = j + r * xi
-
-        res[i] = r
+    x = np.asarray(x)
+    res = np.full(x.shape, coef[m - 1], np.result_type(x, np.float64))
+    for j in coef[:-1][::-1]:
+        res = j + res * x
 
     return res.item(0) if res.size == 1 else res
 
-- 
2.43.0


From 2295711779f72fdcf618f8b6133b6d24d98e5f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 61/85] fix: polylogarithm failed on lists and ignored log for
 order 2

---
 copulae/special/special_func.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index e59bbe4..9e1326b 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -181,13 +181,13 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     {array_like, scalar}
         Poly logarithms
     """
-    if isinstance(z, (complex, int, float)):
-        z = np.ravel(z)
+    z = np.atleast_1d(z)
 
     method = method.lower()
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
     if s == 2 and method == 'default':
-        return dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        r = dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        return np.log(r) if log else r
 
     elif method == 'default':
         method = 'neg-stirling'
@@ -196,7 +196,8 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
 
     if s == 1:
         r = -np.log1p(-z)
-        return np.log(r) if log else r
+        res = np.log(r) if log else r
+        return res.item(0) if res.size == 1 else res
 
     iz = 1 - z
     n = abs(int(s))
-- 
2.43.0


From e1a2c9c778dfc3c93f03607ad248716fb04c6ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 62/85] fix: polylogarithms of orders below -18 overflowed

---
 copulae/special/special_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 9e1326b..79ccdbc 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -204,7 +204,7 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
 
     if method == 'neg-stirling':
         r = z / iz
-        f = np.cumprod([1, *range(1, n + 1)])
+        f = np.cumprod([1., *range(1, n + 1)])
         s = stirling_second_all(n + 1)
         p = polyn_eval(f * s, r)
         if log:
-- 
2.43.0


From 8859527bcdfac8de34cddeab26573d11fb6f907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 63/85] fix: the Eulerian number of the empty permutation was 0

---
 copulae/special/special_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 79ccdbc..57ff233 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -40,7 +40,7 @@ def eulerian(n, k):
 
     assert 0 <= k <= n, "`k` must be in the range of [0, `n`]"
 
-    if k == n:
+    if n > 0 and k == n:
         return 0
     if k == 0:
         return 1
-- 
2.43.0


From 3e08eff9cb56b7695d8ede4797bebdb6a3ebad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 64/85] fix: Eulerian numbers from n = 18 on were rounded
 wrongly

---
 copulae/special/special_func.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 57ff233..6fd6bd5 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -1,9 +1,9 @@
+import math
 from typing import Iterable, Optional, Union
 
 import numpy as np
 from scipy.stats import logistic as logis
 
-from copulae.special.combinatorics import comb
 from copulae.special.dilog import dilog, dilog_complex
 
 __all__ = ['eulerian', 'eulerian_all', 'log1mexp', 'log1pexp', 'log_sum', 'poly_log', 'polyn_eval', 'sign_ff',
@@ -46,11 +46,8 @@ def eulerian(n, k):
         return 1
     if k >= (n + 1) // 2:
         k = n - k - 1
-    k1 = k + 1
-    sig = np.ones(k1)
-    sig[1::2] *= -1
 
-    return int(round(sum(sig * comb(n + 1, np.arange(k + 1)) * np.arange(k1, 0, -1, np.float64) ** n)))
+    return sum((-1) ** i * math.comb(n + 1, i) * (k + 1 - i) ** n for i in range(k + 1))
 
 
 def eulerian_all(n):
-- 
2.43.0


From 13ae97f31febddb6564cfa39ffa958853bc32e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 65/85] fix: log1mexp failed on lists

---
 copulae/special/special_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 6fd6bd5..fe9726a 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -85,7 +85,7 @@ def log1mexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 - np.exp(-x))
+    return np.log(1 - np.exp(-np.asarray(x)))
 
 
 def log1pexp(x):
-- 
2.43.0


From 48143d7ee32180e2ad99230b330f1bd18bd25e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 66/85] fix: log_sum of logarithms of zeros was nan

---
 copulae/special/special_func.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index fe9726a..02ada9e 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -147,6 +147,7 @@ def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] =
         offset = np.asarray(offset)
         assert len(offset) == log_x.shape[1], "Offset must match data dimensions"
 
+    offset = np.where(np.isfinite(offset), offset, 0)
     res = offset + np.log(np.exp(log_x - offset).sum(0))
     return res if len(res) > 1 else res[0]
 
-- 
2.43.0


From e41a1c7a2906fd906f4285d0703f6b4a216c84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 67/85] fix: sign_ff failed on scalars and for alpha 1 with d
 below j

---
 copulae/special/special_func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 02ada9e..fd381db 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -284,7 +284,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
     assert np.all(j >= 0), "all elements in `j` must be >= 0"
 
     if d.ndim == 0 and j.ndim == 0:
-        d, j = int(d), int(j)
+        d, j = d.reshape(1), j.reshape(1)
     elif d.ndim == 0 and j.ndim > 0:
         d = np.repeat(d, len(j))
     elif j.ndim == 0 and d.ndim > 0:
@@ -296,7 +296,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
             d = np.asarray([d[i % len(d)] for i in range(len(j))])
 
     if alpha == 1:
-        res = (j > d) * (-1) ** (d - j) + (j == d)
+        res = (j > d) * (-1.) ** (d - j) + (j == d)
     else:
         res = np.where(j > d, np.nan, 0)
         x = alpha * j
-- 
2.43.0


From 76a31d1cc48d76ce277d75d10ab7cf39e90ecd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 68/85] fix: the sign of the binomial coefficient of 0 over 0
 was 0

---
 copulae/special/special_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index fd381db..a1462cd 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -300,7 +300,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
     else:
         res = np.where(j > d, np.nan, 0)
         x = alpha * j
-        ind = x != np.floor(x)
+        ind = (x != np.floor(x)) | ((d == 0) & (j == 0))
         res[ind] = (-1) ** (j[ind] - np.ceil(x[ind]))
 
     return res.item(0) if res.size == 1 else res
-- 
2.43.0


From 90044ca04f71974b764324f4cfef3a69dc2f1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 69/85] fix: multivariate t density of a single number failed

---
 copulae/stats/_multivariate_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 93c95af..ce775b8 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -205,7 +205,7 @@ class multivariate_t:
     def _process_input(x: Numeric, dim: int):
         x = np.asarray(x, dtype=float)
         if x.ndim == 0:
-            return x[np.newaxis]
+            return x[np.newaxis, np.newaxis]
         elif x.ndim == 1:
             return x[:, np.newaxis] if dim == 1 else x[np.newaxis, :]
         return x
-- 
2.43.0


From fb51baf84d4bc8743a5a10afbd3d90d142e29c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 70/85] fix: multivariate t samples failed for a covariance
 given as a number

---
 copulae/stats/_multivariate_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index ce775b8..16a50ec 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -189,7 +189,7 @@ class multivariate_t:
             r /= d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size)
+            r = mvn.rvs(np.zeros(dim), cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
-- 
2.43.0


From e5a999147e81986e8473fe32606e0c8ec69a0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 71/85] fix: several multivariate t samples in one dimension
 failed

---
 copulae/stats/_multivariate_t.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 16a50ec..0bf1fe5 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -186,12 +186,16 @@ class multivariate_t:
             r = mvn.rvs(mean, cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
+            elif size > 1:
+                r = r.reshape(size, dim)
             r /= d
 
         elif type_.casefold() == 'shifted':
             r = mvn.rvs(np.zeros(dim), cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
+            elif size > 1:
+                r = r.reshape(size, dim)
             r /= d
 
             if mean is not None:
-- 
2.43.0


From 461c0e7f6692a736a561d5af14a541e76ff449cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 72/85] fix: singular matrices were reported positive definite

---
 copulae/core/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/core/linalg.py b/copulae/core/linalg.py
index 9da4833..3db5734 100644
--- a/copulae/core/linalg.py
+++ b/copulae/core/linalg.py
@@ -85,14 +85,14 @@ def is_psd(M: np.ndarray, strict=False, tol=1e-12) -> bool:
         True if matrix is positive (semi-)definite, else False
     """
     if isinstance(M, (int, float)):
-        return M > -tol if strict else M >= -tol
+        return M > tol if strict else M >= -tol
 
     M = np.asarray(M)
     if not is_symmetric(M, tol):
         return False
 
     if strict:
-        return (la.eigvalsh(M) > -tol).all()
+        return (la.eigvalsh(M) > tol).all()
     else:
         return (la.eigvalsh(M) >= -tol).all()
 
-- 
2.43.0


From f2a059ce5ae874829c81caa3455a05f51aa32520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:15 +0000
Subject: [PATCH 73/85] fix: Sibuya sums take the signs of each element, work
 with one summand, and return logarithms for alpha 1

---
 copulae/archimedean/auxiliary.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/auxiliary.py b/copulae/archimedean/auxiliary.py
index 1c98bc9..9a2a236 100644
--- a/copulae/archimedean/auxiliary.py
+++ b/copulae/archimedean/auxiliary.py
@@ -58,15 +58,13 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
             n = np.repeat(n, len_long)
 
     if alpha == 1:
-        return (x == n).astype(float)
+        return np.where(x == n, 0., -np.inf) if log else (x == n).astype(float)
 
     method = method.lower()
     assert method in ('log', 'direct', 'diff')
 
     s = np.zeros(len_long)
     if method == 'log':
-        signs = sign_ff(alpha, np.arange(np.max(n)) + 1, x)
-
         for i, xx, nn in zip(range(len_long), x, n):
             if xx < nn:
                 s[i] = -np.inf
@@ -75,7 +73,7 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
             lxabs = comb(nn, js + 1, log=True) + comb(alpha * (js + 1), xx, log=True)
 
             offset = np.max(lxabs)
-            sum_ = np.sum(signs[js] * np.exp(lxabs - offset))
+            sum_ = np.sum(sign_ff(alpha, js + 1, xx) * np.exp(lxabs - offset))
             s[i] = np.log(sum_) + offset
 
         return s if log else np.exp(s)
-- 
2.43.0


From 070d587d784682cc73ba2195a57d13bd3eb01250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:15 +0000
Subject: [PATCH 74/85] fix: the pois method of the Gumbel polynomial works in
 dimension 1

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index a18d333..8fa8d90 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -418,7 +418,7 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
 
         lxabs = llx + lppois + np.tile(labs_poch - lfac, (n, 1)).T + np.tile(x, (d, 1))
 
-        signs = sign_ff(alpha, k, d)
+        signs = np.atleast_1d(sign_ff(alpha, k, d))
         offset = np.max(lxabs, 0)
         sum_ = np.sum(signs[:, None] * np.exp(lxabs - offset[None, :]), 0)
         res = np.log(sum_) + offset
-- 
2.43.0


From aa34691334a929fcb3f65a0eef114514628667bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 75/85] fix: the threshold next to the pole of the stable
 integrand was negative

---
 copulae/stats/stable/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/common.py b/copulae/stats/stable/common.py
index fcd85d8..43d1a76 100644
--- a/copulae/stats/stable/common.py
+++ b/copulae/stats/stable/common.py
@@ -7,7 +7,7 @@ __all__ = ['LARGE_EXP_POW', 'PI', 'PI2', 'PI2E', 'eplus', 'eminus', 'integrate',
 LARGE_EXP_POW = 708.3964
 PI = np.pi
 PI2 = np.pi / 2
-PI2E = PI2 * (1 - 1e6)
+PI2E = PI2 * (1 - 1e-6)
 
 
 def eplus(x):
-- 
2.43.0


From 8b278ae84724227a2d5ab5528d1113b7a5368928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 76/85] fix: totally skewed stable densities were zero: the
 width of the interval is the difference of its ends

---
 copulae/stats/stable/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index c18a33a..c9a75ba 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -101,7 +101,7 @@ def aux_f1(x, alpha, beta, log=False):
                 while np.isclose(g1((ll + uu) / 2), 1):
                     uu = (ll + uu) / 2
 
-            if np.isclose(uu + ll, 0, 1e-13):
+            if abs(uu - ll) < 1e-13:
                 return -np.inf if log else 0
 
         r1 = find_root(lambda t: g1(t) - 1, ll, uu)
-- 
2.43.0


From 8755c30d6c948fa80c08213d9f48b23ebfb1da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 77/85] fix: the stable integrand at its peak is its value
 there, not a function of the location

---
 copulae/stats/stable/pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index c9a75ba..3fcc0aa 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -105,11 +105,11 @@ def aux_f1(x, alpha, beta, log=False):
                 return -np.inf if log else 0
 
         r1 = find_root(lambda t: g1(t) - 1, ll, uu)
-        gr1 = xexp(r1 + 1)
+        gr1 = g2(r1)
 
         try:
             r2 = find_root(lambda t: np.log(g1(t)), ll, uu)
-            gr2 = xexp(np.exp(r2))
+            gr2 = g2(r2)
         except (AssertionError, RuntimeError):
             r2, gr2 = np.nan, -np.inf
 
-- 
2.43.0


From 6f9582b08d52396a3bdfc1108c96d939da61a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 78/85] fix: stable densities with index 1 and negative
 skewness were not a number

---
 copulae/stats/stable/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 3fcc0aa..0df9837 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -166,7 +166,7 @@ def aux_f2(x, beta, log=False):
         return -np.inf if log else 0
 
     def g1(u):
-        if np.isclose(abs(u + np.size(beta)), 0, atol=1e-10):
+        if np.isclose(abs(u + np.sign(beta)), 0, atol=1e-10):
             return 0
         h = p2b + u * PI2
         return h / p2b * np.exp(ea + h * tanpi2(u)) / cospi2(u)
-- 
2.43.0


From e86534f1d21eb5f623d5d093d5b88d37bec0794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 79/85] fix: stable tail densities of matrices

---
 copulae/stats/stable/pdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 0df9837..bc0ef0a 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -194,8 +194,7 @@ def pareto(x, alpha, beta, log=False):
     neg = x < 0
     if np.any(neg):
         x = np.where(neg, -x, x)
-        beta = np.repeat(beta, len(x))
-        beta[neg] *= -1
+        beta = np.where(neg, -beta, beta)
 
     if log:
         return np.log(alpha) + np.log1p(beta) + stable_tail(alpha, log=True) - (1 + alpha) * np.log(x)
-- 
2.43.0


From 21bc2ee066ef63657a9c767941c0874ef8d2a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 80/85] fix: vanishing logarithmic stable densities take the
 tail approximation

---
 copulae/stats/stable/stable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 25b8c5a..ecfcd80 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -101,8 +101,8 @@ class skew_stable:
         if ans.size == 1:
             ans = ans.ravel()
 
-        infs = ans == 0
-        if np.any(ans):
+        infs = ans == (-np.inf if log else 0)
+        if np.any(infs):
             d = pdf.pareto(x, alpha, beta, log)[infs]
             ans[infs] = (d - np.log(gamma)) if log else (d / gamma)
 
-- 
2.43.0


From 49c2563fcca8221205ef076fdf1a4467416fce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 81/85] fix: the stable mode was that of skewness 1 for every
 skewness

---
 copulae/stats/stable/stable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index ecfcd80..e7bd8df 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -192,7 +192,7 @@ class skew_stable:
         if alpha * beta == 0:
             return 0
 
-        beta = max(beta, beta_max)
+        beta = np.clip(beta, -beta_max, beta_max)
         bounds = sorted([0, np.sign(beta) * -0.7])
 
         return float(opt.minimize_scalar(lambda x: -cls.pdf(x, alpha, beta), bounds=bounds)['x'])
-- 
2.43.0


From 9165fdc80698f05352bf795aa20e849698873e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 82/85] fix: skewed stable variates with index 1

---
 copulae/stats/stable/stable.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index e7bd8df..a1a5b53 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -155,16 +155,20 @@ class skew_stable:
             theta = np.pi * (np.random.uniform(size=size) - 0.5)
             w = np.random.standard_exponential(size)
 
-            bt = beta * tanpi2(alpha)
-            t0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
-            at = alpha * (theta + t0)
+            if alpha == 1:
+                h = PI2 + beta * theta
+                z = (h * np.tan(theta) - beta * np.log(PI2 * w * np.cos(theta) / h)) / PI2
+            else:
+                bt = beta * tanpi2(alpha)
+                t0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
+                at = alpha * (theta + t0)
 
-            c = (1 + bt ** 2) ** (1 / (2 * alpha))
+                c = (1 + bt ** 2) ** (1 / (2 * alpha))
 
-            z = (c * np.sin(at)
-                 * (np.cos(theta) ** (-1 / alpha))
-                 * ((np.cos(theta - at) / w) ** ((1 - alpha) / alpha))
-                 - bt)
+                z = (c * np.sin(at)
+                     * (np.cos(theta) ** (-1 / alpha))
+                     * ((np.cos(theta - at) / w) ** ((1 - alpha) / alpha))
+                     - bt)
 
         return z * gamma + delta
 
-- 
2.43.0


From c419dffa5e606e2cbfce5a3a9a597caec5a8e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:50 +0000
Subject: [PATCH 83/85] fix: complex dilogarithm used angles outside of a turn
 as they were

---
 copulae/special/_specfunc.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index 5218a38..1164f5f 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -458,6 +458,7 @@ cdef ComplexResult _dilog_complex(double r, double theta) nogil:
             c.imag = -PI * cm.log(x)
 
     elif cm.fabs(r2 - 1) <= DBL_EPSILON:
+        theta = cm.atan2(y, x)  # principal value, theta may be outside of (-pi, pi]
         t1 = theta * theta / 4
         t2 = PI * cm.fabs(theta) / 2
         c.real = zeta2 + t1 - t2
@@ -469,6 +470,7 @@ cdef ComplexResult _dilog_complex(double r, double theta) nogil:
 
     else:
         c = dilogc_unit_disk(x / r2, - y / r2)
+        theta = cm.atan2(y, x)
         ln_minusz_re = cm.log(r)
         ln_minusz_im = (-1.0 if theta < 0.0 else 1.0) * (cm.fabs(theta) - PI)
         lmz2_re = ln_minusz_re ** 2 - ln_minusz_im ** 2
-- 
2.43.0


From b1435f9ff117e01f510e99abf1d79ec229499f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:16 +0000
Subject: [PATCH 84/85] fix: log1pexp was infinite above 709

---
 copulae/special/special_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index a1462cd..2acde8c 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -102,7 +102,7 @@ def log1pexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 + np.exp(x))
+    return np.logaddexp(0, x)
 
 
 def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From 16b938e2fea075567fba97f34b548b20994e939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:23 +0000
Subject: [PATCH 85/85] fix: Frank densities of strong dependence lost all
 their digits

---
 copulae/archimedean/frank.py    |  4 ++--
 copulae/special/special_func.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index b91b3e1..2423e95 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -154,8 +154,8 @@ class FrankCopula(AbstractArchimedeanCopula):
         lpu = log1mexp(theta * u_)
         lu = lpu.sum(1)
 
-        li_arg = np.exp(lp + (lpu - lp).sum(1))
-        li = poly_log(li_arg, 1 - d, log=True)
+        log_li_arg = lp + (lpu - lp).sum(1)
+        li = poly_log(log_li_arg, 1 - d, log=True, is_log_z=True)
 
         res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
 
diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 2acde8c..abad9c6 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -85,7 +85,9 @@ def log1mexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 - np.exp(-np.asarray(x)))
+    x = np.asarray(x)
+    with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
+        return np.where(x > np.log(2), np.log1p(-np.exp(-x)), np.log(-np.expm1(-x)))[()]
 
 
 def log1pexp(x):
@@ -152,7 +154,7 @@ def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] =
     return res if len(res) > 1 else res[0]
 
 
-def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
+def poly_log(z, s, method='default', log=False, is_log_z=False) -> Union[float, np.ndarray]:
     r"""
     Computes the polylogarithm function. Current implementation only takes care of :math:`s \leq 0`
 
@@ -174,6 +176,9 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     log: bool
         If True, returns the log of poly logarithms
 
+    is_log_z: bool
+        If True, `z` is the log of the argument, which may be too close to 1 to be told apart from it
+
     Returns
     -------
     {array_like, scalar}
@@ -183,6 +188,8 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
 
     method = method.lower()
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
+    if is_log_z:
+        log_z, z = z, np.exp(z)
     if s == 2 and method == 'default':
         r = dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
         return np.log(r) if log else r
@@ -201,12 +208,12 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     n = abs(int(s))
 
     if method == 'neg-stirling':
-        r = z / iz
+        r = 1 / np.expm1(-log_z) if is_log_z else z / iz
         f = np.cumprod([1., *range(1, n + 1)])
         s = stirling_second_all(n + 1)
         p = polyn_eval(f * s, r)
         if log:
-            res = np.log(p) + logis.ppf(z)
+            res = np.log(p) + (log_z - log1mexp(-log_z) if is_log_z else logis.ppf(z))
         else:
             res = r * p
 
-- 
2.43.0

