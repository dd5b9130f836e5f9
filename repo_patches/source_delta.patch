From 95da6d7f65b51b3bbfb9992ca2852879de313f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 001/101] fix: variance of term insurance raised NameError
 (first moment never set)

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..4936459 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
-- 
2.43.0


From 2e8a44421402d9975d0f190707957a4cc3aef1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 002/101] fix: variance of whole life insurance squared the
 first moment twice

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 4936459..a0c88f8 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
-- 
2.43.0


From dbb39bdd760a124ed7ca28aeef6e28595eaaac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 003/101] fix: pure endowment at t=0 ignored endowment amount
 and moment

---
 src/actuarialmath/insurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index a0c88f8..edc9347 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => endowment amount is paid with certainty
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-- 
2.43.0


From 335185b03164a73d2467b2201202eb70c5a6a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 004/101] fix: second moment of A_x did not square the
 endowment amount

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index edc9347..dac816e 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From 3b5aaca35c700e31d88c4e3357d19fdf38d9f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 005/101] fix: decreasing insurance ignored years after
 selection

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index dac816e..77b5a40 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From 14b31ddc20027db0b9fee6dd6dd443ac55e09f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 006/101] fix: variance of endowment insurance applied the
 benefit amount twice

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 77b5a40..3886bec 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 964ed049a7400ad25027c8c1b0498ee5fbaf94fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 007/101] fix: life table pure endowment had no endowment
 amount, and a wrong variance

---
 src/actuarialmath/lifetable.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..781e12f 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -258,27 +258,26 @@ class LifeTable(Reserves):
         else:
             return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
 
-    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
+    def E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1,
+            moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
 
         Args:
           x : age of selection
           s : years after selection
           t : survives t years
+          endowment : amount of pure endowment
           moment : return first (1) or second (2) moment or variance (-2)
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
-        if moment == 1:
-            return self.interest.v_t(t) * p
-        # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-        return self.interest.v_t(t)**(moment-1) * self.E_x(x, s=s, t=t)
+            return (endowment * self.interest.v_t(t))**2 * p * (1 - p)
+        return (endowment * self.interest.v_t(t))**moment * p
 
     def __getitem__(self, col: str) -> Dict[int, float]:
         """Returns a column of the life table
-- 
2.43.0


From 507b4fd91200202845966af71ef661917e0cf083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 008/101] fix: constant force pure endowment at t=0 and its
 variance

---
 src/actuarialmath/constantforce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..4db5d8f 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -64,9 +64,12 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
+        if moment == self.VARIANCE:  # second moment less square of first moment
+            return (self.E_x(x, s=s, t=t, endowment=endowment, moment=2)
+                    - self.E_x(x, s=s, t=t, endowment=endowment)**2)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
-- 
2.43.0


From bedfe47eb3ba5693297f32059e139bbc80f81b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 009/101] fix: Uniform pure endowment ignored s and endowment
 amount, rejected variance

---
 src/actuarialmath/mortalitylaws.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..2200e9a 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -193,7 +193,7 @@ class Uniform(Beta):
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
@@ -203,17 +203,16 @@ class Uniform(Beta):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        assert moment > 0
+        assert moment > 0 or moment == self.VARIANCE
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        t_p_x = (self.omega_ - (x+s) - t) / (self.omega_ - (x+s))
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return (endowment * self.interest.v_t(t))**2 * t_p_x * (1 - t_p_x)
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From b2037772876e883d3658b92d0719a21e82d863ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 010/101] fix: Uniform insurances lost the term, the second
 moment, and scaled variance twice

---
 src/actuarialmath/mortalitylaws.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 2200e9a..3c9e8cd 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -231,7 +231,7 @@ class Uniform(Beta):
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
                         self.whole_life_insurance(x, s=s, b=b, moment=1, 
-                                                    discrete=False)**2) * b**2
+                                                    discrete=False)**2)
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -249,16 +249,17 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
-                                            discrete=False)**2) * b**2
-            t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+                                            discrete=False)**2)
+            t = self.max_term(x+s, t)
+            delta = moment * self.interest.delta  # multiply force of interest
+            a = (1 - self.interest.v_t(t)**moment) / delta if delta else t
+            return b**moment * a / (self.omega_ - (x+s))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From 77c5edd8588f3827956c9bbd43f577f3018babcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:54 +0000
Subject: [PATCH 011/101] fix: derivative failed on functions of a scalar
 (math.exp etc.)

---
 src/actuarialmath/actuarial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..179c325 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,7 +69,8 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
-        return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
+        f = np.vectorize(fun, otypes=[float])  # scipy evaluates at arrays of points
+        return float(scipy.differentiate.derivative(f, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
     @staticmethod
-- 
2.43.0


From 5e9e61b8272aa3116b6e88e19d0a0e6a51933e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:54 +0000
Subject: [PATCH 012/101] fix: lifetime density derived from number of lives
 was not divided by lives at start

---
 src/actuarialmath/survival.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..1bb5270 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -54,7 +54,7 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return -self.derivative(lambda t: self.l(x, s+t), t) / self.l(x, s)
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From b38a1508a03ef102487e91e8a2bbda1b806f1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 013/101] fix: Beta survival function was negative or complex
 past the limiting age

---
 src/actuarialmath/mortalitylaws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 3c9e8cd..f7cd18e 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -106,10 +106,10 @@ class Beta(MortalityLaws):
             return alpha / (omega - (x+s))
 
         def _l(x: int, s: float) -> float:
-            return radix * (omega - (x+s))**alpha
+            return radix * max(0, omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
-            return ((omega-(x+s+t))/(omega-(x+s)))**alpha
+            return (max(0, omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
             return alpha / (omega - (x+s))
-- 
2.43.0


From 6f9f2b9004b6ca6c2b1f1326f582b068512bd6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 014/101] fix: Beta lifetime density was the force of mortality
 at the starting age

---
 src/actuarialmath/mortalitylaws.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index f7cd18e..b03aff0 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -112,7 +112,9 @@ class Beta(MortalityLaws):
             return (max(0, omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            if x+s+t >= omega:
+                return 0.
+            return _S(x, s, t) * _mu(x, s+t)
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
-- 
2.43.0


From 837e9a0964080932566dba10dd9af0a4e4bf4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 015/101] fix: l_r of mortality laws without an l function

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index b03aff0..b217587 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -23,7 +23,7 @@ class MortalityLaws(Reserves):
           s : years after selection
           r : fractional year after selection
         """
-        return self.l(x, s+r)
+        return self.l_x(x, s=s+r)
 
     def p_r(self, x: int, s: int = 0, r: float = 0., t: float = 1.) -> float:
         """Fractional age survival probability given special mortality law
-- 
2.43.0


From 280e6c223effe0907fdad78cc593c53b5c3b6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 016/101] fix: variance of one-year limited curtate lifetime
 returned the mean

---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..6e4b2ee 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment > 0:      # shortcut for e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From 7be0669b6b429cf68dfe8071bad40ec2bc92ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 017/101] fix: Uniform expected lifetime ignored s and mixed up
 survival and death when limited

---
 src/actuarialmath/mortalitylaws.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index b217587..ff3e397 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -183,14 +183,14 @@ class Uniform(Beta):
         if moment in [1, self.VARIANCE] and not curtate:
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return (self.omega_ - (x+s))**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return (self.omega_ - (x+s)) / 2
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
-                return t_p_x * t  + (1 - t_p_x) * (t / 2)
+                t_q_x = t / (self.omega_ - (x+s))
+                return t_q_x * (t / 2) + (1 - t_q_x) * t
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     
-- 
2.43.0


From 90bd08e7ca8e7c6a69be23b90e6ab9c95e195bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 018/101] fix: Beta limited expectation always returned the
 complete expectation

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index ff3e397..fe281d0 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -129,7 +129,7 @@ class Beta(MortalityLaws):
           t : limited at t years
         """
         e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
+        if t >= 0 and x + s + t < self.omega_: # temporary expectation
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-- 
2.43.0


From 834df04ae43db5461ee41d99e59a8005af695d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 019/101] fix: Beta.e_x rejected the term argument t; its
 variance was not that of the law

---
 src/actuarialmath/mortalitylaws.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index fe281d0..12e6a04 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -133,27 +133,26 @@ class Beta(MortalityLaws):
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-    def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
+    def e_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
           curtate: bool = False, moment: int = 1) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
-          n : death within next n fractional years
           t : limited at t years
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
-        if n == 0:
+        if t == 0:
             return 0
         if not curtate:
             if moment == 1:
-                return self.e_r(x, s=s, t=n)
-            if moment == self.VARIANCE and n < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+                return self.e_r(x, s=s, t=t)
+            if moment == self.VARIANCE and t < 0: # shortcut for complete variance
+                return ((self.omega_ - (x + s))**2 * self.alpha_
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
+        return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
-- 
2.43.0


From dc31f8d50fb200df329557035b70e3c5eabb4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 020/101] fix: e_r of mortality laws called a method that does
 not exist

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 12e6a04..8785609 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -82,7 +82,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
-- 
2.43.0


From ade7e59854db9748c3cc6827b7f4640279f9421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 021/101] fix: constant force variance of limited lifetime
 ignored the limit

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 4db5d8f..4a2bd30 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -43,7 +43,7 @@ class ConstantForce(MortalityLaws):
           moment : first (1) or second (2) moment
         """
         if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
-- 
2.43.0


From 26e3c75009bada89aa1b907f17dca6fe7c5efd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 022/101] fix: LifeTable.e_x ignored s and rejected the term
 argument t

---
 src/actuarialmath/lifetable.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 781e12f..5b735e4 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -236,27 +236,27 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : future lifetime limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
-        if moment == 1:
-            # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
-            # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+        if moment == 1 and (curtate or self.udd_):
+            # E[K_x] = sum([self.p(x, k+1) for k in range(t)])
+            t = self.max_term(x+s, t)
+            # complete by UDD between integer age recursion
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
+            return e / self.l(x, s=s)
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1,
             moment: int = 1) -> float:
-- 
2.43.0


From 0ec88974a50aa8ab9ed6182220f6d97a7fb98a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 023/101] fix: constant force limited expectation when the
 one-year survival probability is 0 or 1

---
 src/actuarialmath/fractional.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..495f759 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -206,7 +206,10 @@ class Fractional(Lifetime):
                 else:          # shortcut for fractional limited expectation
                     return self.q_r(x=x, s=s, t=t)*(t/2) + self.p_r(x, s=s, t=t)*t
             else:         # Constant Force case
-                mu = -math.log(max(0.00001, self.p_x(x=x, s=s)))  # constant mu
+                p = self.p_x(x=x, s=s)
+                if p <= 0 or p >= 1:    # force infinite or zero
+                    return 0. if p <= 0 else t
+                mu = -math.log(p)  # constant mu
                 return (1. - math.exp(-mu*t)) / mu                # shortcut
 
         # t > 1: apply one-year recursion formula            
-- 
2.43.0


From 3d5c2708f0d5921c5c913a81e505a6cefdc033cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 024/101] fix: fractional age density f_r ignored the starting
 fraction, failed for r > 1 and recursed forever

---
 src/actuarialmath/fractional.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 495f759..637316d 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,22 +139,18 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        s += r_floor            # maintain x+s+r unchanged
+        r -= r_floor            # s.t. r < 1
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
-            if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+            if self.udd_:       # UDD shortcut: constant density within the year
+                return self.q_x(x, s=s) / (1. - r*self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
-            t_floor = math.floor(r + t)
-            u = t_floor - r         # s.t. u + r is integer
-            t = t + r - t_floor     # s.t. t < 1
-            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+u+r, t=t)
+            u = math.floor(r + t)
+            return self.p_r(x, s=s, r=r, t=u-r) * self.f_r(x, s=s+u, t=r+t-u)
 
     #
     # Define fractional age pure endowment function
-- 
2.43.0


From e44ff34488bc33ee6cfc406b96c271897ab73300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 025/101] fix: life table completion divided by zero when
 nobody is alive or certain to die

---
 src/actuarialmath/lifetable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 5b735e4..2bc55d8 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -119,7 +119,7 @@ class LifeTable(Reserves):
                 return self._table['q'][x]
             if x in self._table['p']:
                 return 1 - self._table['p'][x]
-            if x in self._table['d'] and x in self._table['l']:
+            if x in self._table['d'] and self._table['l'].get(x, 0) != 0:
                 return self._table['d'][x] / self._table['l'][x]
             return None
 
@@ -135,11 +135,11 @@ class LifeTable(Reserves):
             """Helper to try compute number of lives aged x: l_x"""
             if x in self._table['l']:
                 return self._table['l'][x]
-            if x+1 in self._table['l'] and x in self._table['q']:
+            if x+1 in self._table['l'] and self._table['q'].get(x, 1) != 1:
                 return self._table['l'][x+1] / (1 - self._table['q'][x])
             if x-1 in self._table['l'] and x-1 in self._table['q']:
                 return self._table['l'][x-1] * (1 - self._table['q'][x-1])
-            if x in self._table['d'] and x in self._table['q']:
+            if x in self._table['d'] and self._table['q'].get(x, 0) != 0:
                 return self._table['d'][x] / self._table['q'][x]
             return None
 
-- 
2.43.0


From 331f179d7fb0d3f0d2b6dca5683f1d0bfab97b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 026/101] fix: last age of a life table depended on how its
 rows were split over calls

---
 src/actuarialmath/lifetable.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 2bc55d8..e1527c1 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -90,10 +90,7 @@ class LifeTable(Reserves):
             self._MINAGE = minage
         if maxage < 0:
             maxage = max([max(v) for v in inputs.values()])
-            if self._MAXAGE < 0:
-                self._MAXAGE = maxage + 1
-            if maxage > self._MAXAGE:
-                self._MAXAGE = maxage
+            self._MAXAGE = max(self._MAXAGE, maxage + 1)
         else:
             self._MAXAGE = maxage
 
-- 
2.43.0


From 49536da7f6ff7c45068e13823a9d7526d3cc113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 027/101] fix: deaths and deferred mortality of life table past
 the limiting age

---
 src/actuarialmath/lifetable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index e1527c1..78b6db2 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -202,7 +202,7 @@ class LifeTable(Reserves):
         if x+s+t <= self._MAXAGE:
             return self.l_x(x, s=s) - self.l_x(x, s=s+t)
         else:
-            return 0.
+            return self.l_x(x, s=s)   # everyone alive dies by the limiting age
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_x = lives beginning year x+t divided lives beginning year x
@@ -228,7 +228,7 @@ class LifeTable(Reserves):
           t : death within next t years
         """
         denom = self.l_x(x, s=s)
-        if denom and x+s+t <= self._MAXAGE:
+        if denom:
             return self.d_x(x, s=s+u, t=t) / self.l_x(x, s=s)
         else:
             return 1     # the only certainty in life
-- 
2.43.0


From baa3f0fd3dfdfea5123299a214769609e5ce3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 028/101] fix: pure endowment of life table due past the
 limiting age was paid at the limiting age

---
 src/actuarialmath/lifetable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 78b6db2..920a579 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -270,8 +270,7 @@ class LifeTable(Reserves):
             return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
-        t = self.max_term(x+s, t)
-        p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
+        p = self.p_x(x, s=s, t=t)   # nobody survives past the limiting age
         if moment == self.VARIANCE:
             return (endowment * self.interest.v_t(t))**2 * p * (1 - p)
         return (endowment * self.interest.v_t(t))**moment * p
-- 
2.43.0


From 90f7f2d16c816d631f2648ee9ff8ca310b59926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 029/101] fix: m-thly conversion of a zero rate raised an
 exception

---
 src/actuarialmath/interest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index e160a10..748a470 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -115,13 +115,13 @@ class Interest(Actuarial):
           >>> print("Convert annual-pay to mthly:", Interest.mthly(i=i, m=12))
         """
         assert m >= 0, "mthly frequency must be non-negative"
-        if i > 0:
+        if i >= 0:
             return m * ((1 + i)**(1 / m) - 1) if m else math.log(1+i)
-        elif d > 0:
+        elif d >= 0:
             return m * (1 - (1 - d)**(1 / m)) if m else -math.log(1-d)
-        elif i_m > 0:
+        elif i_m >= 0:
             return (1 + (i_m / m))**m - 1
-        elif d_m > 0:
+        elif d_m >= 0:
             return 1 - (1 - (d_m / m))**m
         else:
             raise Exception("no interest rate given to mthly")
-- 
2.43.0


From 961c2b8920ea828f9ce1dab470cb4a1f5991358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 030/101] fix: annuity certain divided by zero when interest
 rate is zero

---
 src/actuarialmath/interest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index 748a470..381be54 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -90,6 +90,8 @@ class Interest(Actuarial):
         """
         v_t = 0 if t < 0 else self.v**t   # is t finite
         assert m >= 0, "mthly frequency must be non-negative"
+        if self.v == 1.:  # if interest=0, total amount of payments
+            return t if t >= 0 else math.inf
         if m == 0:  # if continuous
             return (1 - v_t) / self.delta
         elif due:   # if annuity due
-- 
2.43.0


From f4654b7dea1c5f1c49e925c1ee0f8e1e47cf2c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 031/101] fix: life annuity ignored the benefit amount when
 interest rate is zero

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..e7a3646 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
-- 
2.43.0


From 7ff16c2b5cfdbd4818cfbaff45a2c802703f3c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 032/101] fix: variance of life annuities when interest rate is
 zero

---
 src/actuarialmath/annuity.py       | 7 +++++++
 src/actuarialmath/constantforce.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index e7a3646..d43d5c8 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -123,6 +123,9 @@ class Annuity(Insurance):
           >>> life.whole_life_annuity(x=24, variance=True, due=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and interest == 0:  # variance of number of payments
+            return b**2 * self.e_x(x, s=s, curtate=discrete,
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -150,6 +153,10 @@ class Annuity(Insurance):
         Examples:
           >>> life.temporary_annuity(x=24, t=10)
         """
+        if variance and self.interest.i == 0:  # variance of number of payments
+            return b**2 * self.e_x(x, s=s, curtate=discrete,
+                                   t=self.add_term(t, -int(discrete)),
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2, 
diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 4a2bd30..99b0d7d 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -85,6 +85,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
+        if variance and self.interest.i == 0:
+            return super().whole_life_annuity(x, s=s, b=b, variance=True,
+                                              discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -109,6 +112,9 @@ class ConstantForce(MortalityLaws):
           discrete : annuity due (True) or continuous (False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and self.interest.i == 0:
+            return super().temporary_annuity(x, s=s, t=t, b=b, variance=True,
+                                             discrete=discrete)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2,
-- 
2.43.0


From e147518b067f9eff07dc6b084da2137174f7ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 033/101] fix: LifeTable.e_x divided by zero at ages with no
 lives

---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 920a579..45e509c 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -251,7 +251,7 @@ class LifeTable(Reserves):
             # complete by UDD between integer age recursion
             e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
                      + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=s)
+            return e / self.l(x, s=s) if self.l(x, s=s) else 0.
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-- 
2.43.0


From 60d13ffe1e4ec1e95e54cde3b20f71005fa35c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 034/101] fix: guaranteed part of certain and life annuity
 ignored benefit amount and stopped at limiting age

---
 src/actuarialmath/annuity.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index d43d5c8..f609dfc 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -205,11 +205,8 @@ class Annuity(Insurance):
         Examples:
           >>> life.certain_life_annuity(x=24, u=5, t=10)
         """
-        u = self.max_term(x+s, u)
-        if u < 0:
-            return 0.
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * self.interest.annuity(u, m=int(discrete)) + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 5a5c48f6fde3f26972bd2c0adf69d49a290c35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 035/101] fix: decreasing annuity with term past the limiting
 age started from a smaller amount

---
 src/actuarialmath/annuity.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index f609dfc..6d925d4 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -241,7 +241,6 @@ class Annuity(Insurance):
           >>> life.decreasing_annuity(x=24, t=10)
         """
         assert t >= 0   # decreasing must be till term
-        t = self.max_term(x+s, t=t)
         a = self.temporary_annuity(x, s=s, t=t, discrete=discrete)
         n = t + int(discrete)
         return b * (a*n - self.increasing_annuity(x, s=s, t=t, discrete=discrete))
-- 
2.43.0


From b9900f38b4ba5f2a28804685d3a2b2e39b5d2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 036/101] fix: continuous annuity benefit function ignored
 years after selection

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 6d925d4..7e20f76 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t=t+u))
                 a = self.integral(Y, 0, t)
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From a0b8f4f30ce31d76175ff7b000277fcc44d87af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 037/101] fix: continuous increasing annuity paid at rate t+1;
 decreasing annuity went negative

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 7e20f76..5888a7c 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -223,7 +223,7 @@ class Annuity(Insurance):
           >>> life.increasing_annuity(x=24, t=10)
         """
         t = self.max_term(x+s, t=t)
-        benefit = lambda x, s: b * (s + 1) # increasing benefit
+        benefit = lambda x, s: b * (s + int(discrete)) # increasing benefit
         return self.a_x(x, s=s, benefit=benefit, t=t, discrete=discrete)
 
     def decreasing_annuity(self, x: int, s: int = 0, t: int = 0, 
-- 
2.43.0


From 92f199cb4363dd4be7e7f37195d2b93d1a809162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 038/101] fix: constant force whole life insurance payable at
 death ignored the benefit amount

---
 src/actuarialmath/constantforce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 99b0d7d..0a78435 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -142,7 +142,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return (b**moment * self.mu_ / (self.mu_ + delta)
+                    if self.mu_ > 0 else 0.)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From bf24dd3e9cc15269df12b85cad0cc574250f2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 039/101] fix: uniform insurance and annuities divided by zero
 at the limiting age

---
 src/actuarialmath/mortalitylaws.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 8785609..a0da71b 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -256,6 +256,8 @@ class Uniform(Beta):
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
                                             discrete=False)**2)
+            if x + s >= self.omega_:
+                return 0.
             t = self.max_term(x+s, t)
             delta = moment * self.interest.delta  # multiply force of interest
             a = (1 - self.interest.v_t(t)**moment) / delta if delta else t
-- 
2.43.0


From 63ce1af75308b8690890871f5489b7d3b75b19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 040/101] fix: percentiles of Z and Y returned time of death
 where root search had gone astray

---
 src/actuarialmath/annuity.py   |  3 +--
 src/actuarialmath/insurance.py | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 5888a7c..e9c1b42 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -261,8 +261,7 @@ class Annuity(Insurance):
 
         """
         assert prob < 1.0
-        t = self.solve(lambda t: self.S(x, 0, t), target=1. - prob,
-                       grid=[self._MINAGE, self._MAXAGE])
+        t = self.T_from_S(x, 1. - prob)
         return math.ceil(t) if discrete else t   # should be opposite of insurance?
 
     def Y_x(self, x, s: int = 0, t: float = 1., discrete: bool = True) -> float:
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 3886bec..acca28e 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -275,10 +275,30 @@ class Insurance(Fractional):
           >>> t = life.Z_t(x=20, prob=0.8, discrete=True)
         """
         assert prob < 1.0  # Note survival function and PV both decreasing in t
-        t = self.solve(lambda t: self.S(x, 0, t),
-                       target=prob, grid=[self._MINAGE, self._MAXAGE])
+        t = self.T_from_S(x, prob)
         return math.floor(t) if discrete else t       # opposite of annuity
 
+    def T_from_S(self, x: int, prob: float) -> float:
+        """Find T_x s.t. survival probability S(T_x) is prob, by bisection
+
+        Args:
+          x : age initially insured
+          prob : desired survival probability
+        """
+        lower, upper = 0., float(self._MAXAGE - x)
+        if self.S(x, 0, upper) >= prob:
+            return upper
+        while upper - lower > 1e-12 * max(1., upper):
+            t = (lower + upper) / 2
+            if t in [lower, upper]:
+                break
+            if self.S(x, 0, t) >= prob:
+                lower = t
+            else:
+                upper = t
+        t = (lower + upper) / 2
+        return float(round(t)) if self.isclose(t, round(t)) else t
+
     def Z_from_t(self, t: float, discrete: bool = True) -> float:
         """PV of annual or continuous insurance payment Z(t) at t=T_x
 
-- 
2.43.0


From e6f7b1aa183bf9436503b320bb0d818c8e8d8265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 041/101] fix: Y_to_t divided by zero when interest rate is
 zero

---
 src/actuarialmath/annuity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index e9c1b42..77cfdd6 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -311,8 +311,8 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
-            return Y
+        if self.isclose(self.interest.delta):   # if interest=0:
+            return Y                            #   Y is the time of death
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
 
-- 
2.43.0


From 1207bd1797082e018224c240d981358c2af38982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 042/101] fix: percentile of annuity-due random variable
 counted a payment too many

---
 src/actuarialmath/annuity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 77cfdd6..65fea71 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -303,6 +303,8 @@ class Annuity(Insurance):
           discrete : annuity due (True) or continuous (False)
         """
         t = self.Y_t(x, prob, discrete=discrete)
+        if discrete:    # death in year before T has T payments at start of year
+            t -= 1
         return self.Y_from_t(t=t, discrete=discrete)
 
     def Y_to_t(self, Y: float) -> float:
-- 
2.43.0


From dc288c55bb179642998b6a9286c189653b4c009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:31 +0000
Subject: [PATCH 043/101] fix: policy values: term counts from issue when
 capped at the limiting age

---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..c34361f 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From 9794a0730507587abcff804ba250e17b933c7b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 044/101] fix: loss of a policy that matures: endowment only,
 premiums for the term

---
 src/actuarialmath/policyvalues.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c34361f..44a5c94 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -322,13 +322,12 @@ class PolicyValues(Premiums):
         """
         c = contract or Contract()
         k = math.floor(t) if c.discrete else t
-        if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+        if c.T > 0 and k >= c.T:   # survives the term: endowment but no claim
+            benefit = c.endowment * self.interest.v_t(c.T)
+            t = c.T - 1 if c.discrete else c.T   # premiums stop at end of term
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            benefit = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (benefit
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From 2abd853da43c346a802802dfdc6aa31d17e685be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 045/101] fix: L_to_t of an annual policy is the first year
 with a loss no more than L

---
 src/actuarialmath/policyvalues.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 44a5c94..c9995c6 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -352,13 +352,14 @@ class PolicyValues(Premiums):
           contract : policy contract terms and expenses
         """
         c = contract or Contract()
+        if c.discrete:   # loss is a step function of complete years lived
+            return next((k for k in range(self._MAXAGE + 1)
+                         if self.L_from_t(k, c) <= L), self._MAXAGE)
         T = Contract.solve(lambda t: self.L_from_t(t, c),
                            target=L,
                            grid=(0, self._MAXAGE),
                            mad=True)
-        if not c.discrete:
-            return T
-        return math.floor(T) if self.L_from_t(t=T, contract=c) <= L else math.ceil(T)
+        return T
 
     def L_to_prob(self, x: int, L: float,
                   contract: Contract = Contract()) -> float:
-- 
2.43.0


From 02a147a3d915dadfdcba7e643f894063d100b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 046/101] fix: L_to_t of a continuous policy searches within
 the policy term

---
 src/actuarialmath/policyvalues.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c9995c6..23201cd 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -355,11 +355,10 @@ class PolicyValues(Premiums):
         if c.discrete:   # loss is a step function of complete years lived
             return next((k for k in range(self._MAXAGE + 1)
                          if self.L_from_t(k, c) <= L), self._MAXAGE)
-        T = Contract.solve(lambda t: self.L_from_t(t, c),
-                           target=L,
-                           grid=(0, self._MAXAGE),
-                           mad=True)
-        return T
+        stop = c.T if c.T > 0 else self._MAXAGE   # search in the policy term only
+        return scipy.optimize.minimize_scalar(lambda t: abs(self.L_from_t(t, c) - L),
+                                              bounds=(0, stop), method='bounded',
+                                              options=dict(xatol=1e-9)).x
 
     def L_to_prob(self, x: int, L: float,
                   contract: Contract = Contract()) -> float:
-- 
2.43.0


From a82f0e1000168cbbd9d3b3f8ecdd4297bafe8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 047/101] fix: fill_reserves counts the settlement expense of
 the contract

---
 src/actuarialmath/reserves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index f9e7ec4..ea11d75 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -60,7 +60,7 @@ class Reserves(PolicyValues):
                                  per_policy = -contract.endowment)
                 elif t == 1:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.initial_premium, 
                                  per_policy=contract.initial_policy)
@@ -68,7 +68,7 @@ class Reserves(PolicyValues):
                     v = 0
                 else:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.renewal_premium, 
                                  per_policy=contract.renewal_policy)
-- 
2.43.0


From 77a2bd0873064106903fe3f8618a360d8852c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 048/101] fix: Mthly.A_x counted the benefits of the deferral
 period and could not value benefits at the moment of death

---
 src/actuarialmath/mthly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..dc4f553 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,15 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s+u, t)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (u+t) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
+            Z = lambda t: ((benefit(x+s, t+u) * self.life.interest.v_t(t+u))**moment
                             * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            A = self.life.integral(Z, 0, t)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
-- 
2.43.0


From f9bdb7526a471d971e91c659fdc48bd97000d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 049/101] fix: m'thly whole life insurance called A_x with
 arguments it does not have

---
 src/actuarialmath/mthly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index dc4f553..91aed9f 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -140,7 +140,8 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
+        return self.A_x(x, s=s, t=Annuity.WHOLE, benefit=lambda x,t: b, 
+                        moment=moment)
 
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From 6eb23bd63eef9fb60f0ce5d8fdd4d8f65f0f6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 050/101] fix: variance of m'thly endowment insurance was
 scaled by the benefit twice

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 91aed9f..754fab0 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -206,7 +206,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
-- 
2.43.0


From 91be0e5980e89f3e205443d420a578c330fefd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 051/101] fix: m'thly whole life annuity used an attribute that
 does not exist

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 754fab0..4dcef2a 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -265,7 +265,7 @@ class Mthly(Actuarial):
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
-- 
2.43.0


From f6efe0f6b1a121a89f98110e745f11044e7a0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 052/101] fix: m'thly temporary annuity used the variance of
 the term insurance and the wrong limiting age

---
 src/actuarialmath/mthly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 4dcef2a..2661df8 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -279,13 +279,13 @@ class Mthly(Actuarial):
           variance : return first moment (False) or variance (True)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
-- 
2.43.0


From 3252eed60cf1515f72cdc1e1b1be33d214f2323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 053/101] fix: continuous immediate annuity ignored its benefit
 amount

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 2661df8..ce74211 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -319,7 +319,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From 45586e33373af0418ddbf72435d32e34b46605b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 054/101] fix: UDD whole life insurance ignored its benefit
 amount

---
 src/actuarialmath/udd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..e5bd37b 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -68,7 +68,7 @@ class UDD(Mthly):
         if moment == 2:
             i = self.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * i / i_m
+        return A * b**moment * i / i_m
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                             endowment: int = -1, moment: int = 1) -> float:
-- 
2.43.0


From e767359635f052b5c914ef17523d1990243bdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 055/101] fix: second moments of UDD insurances used an
 attribute that does not exist

---
 src/actuarialmath/udd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index e5bd37b..f93674f 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -66,7 +66,7 @@ class UDD(Mthly):
         A = self.life.whole_life_insurance(x, s=s, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * b**moment * i / i_m
 
@@ -114,7 +114,7 @@ class UDD(Mthly):
         A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * (i / i_m)
 
-- 
2.43.0


From 3dddb0ea20192309207186217df236bbb1d7be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 056/101] fix: UDD shortcut was applied to the continuous term
 insurance that Uniform returns by default

---
 src/actuarialmath/udd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index f93674f..401fa4a 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -63,7 +63,7 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return ((self.whole_life_insurance(x, s=s, moment=2) -
                      self.whole_life_insurance(x, s=s)**2) * b**2)
-        A = self.life.whole_life_insurance(x, s=s, moment=moment)
+        A = self.life.whole_life_insurance(x, s=s, moment=moment, discrete=True)
         i = self.life.interest.i
         if moment == 2:
             i = self.life.interest.double_force(i)
@@ -111,7 +111,8 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return (self.term_insurance(x, s=s, t=t, b=b, moment=2) -
                     self.term_insurance(x, s=s, t=t, b=b)**2)
-        A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
+        A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment, 
+                                     discrete=True)
         i = self.life.interest.i
         if moment == 2:
             i = self.life.interest.double_force(i)
-- 
2.43.0


From 6a763082954541e82d2a746b40e78e5e4666e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 057/101] fix: variances of UDD annuities called a method and
 used an attribute that do not exist

---
 src/actuarialmath/udd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 401fa4a..c612f58 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -135,7 +135,7 @@ class UDD(Mthly):
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
@@ -154,9 +154,9 @@ class UDD(Mthly):
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
-- 
2.43.0


From e4445656364c74d18b96c0c7c45297903a054fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 058/101] fix: UDD deferred annuity used an undefined deferral
 and ignored the end of its term

---
 src/actuarialmath/udd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index c612f58..3d13070 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -176,7 +176,7 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t)
@@ -184,7 +184,8 @@ class UDD(Mthly):
             return (b**2 * (A2 - A1**2) / self.d**2)
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        E = self.E_x(x, s=s, t=u) * (1 - self.E_x(x, s=s+u, t=t))
+        return (a * self.alpha_m - self.beta_m * E) * b
 
     @staticmethod
     def interest_frame(i: float = 0.05):
-- 
2.43.0


From 35e0c35cae74fff9fa1f46c3d39298105bde0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 059/101] fix: variance of the UDD deferred annuity ignored the
 deferral

---
 src/actuarialmath/udd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 3d13070..ff1f064 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -179,9 +179,11 @@ class UDD(Mthly):
         if self.life.max_term(x+s, u) < u:
             return 0.
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            a1 = self.temporary_annuity(x, s=s+u, t=t)
+            a2 = self.temporary_annuity(x, s=s+u, t=t, variance=True) + a1**2
+            E1 = self.E_x(x, s=s, t=u)
+            E2 = self.E_x(x, s=s, t=u, moment=2)
+            return b**2 * (E2*a2 - (E1*a1)**2)
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
         E = self.E_x(x, s=s, t=u) * (1 - self.E_x(x, s=s+u, t=t))
-- 
2.43.0


From 977c1e245d469842fe82c1713821131d19ea0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 060/101] fix: Woolhouse replaced a given force of mortality of
 0 by its own approximation

---
 src/actuarialmath/woolhouse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4a9c17a..7c858ff 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -38,7 +38,7 @@ class Woolhouse(Mthly):
             return self.approximate_mu(x, s)
 
     def whole_life_insurance(self, x: int, s: int = 0, b: int = 1,
-                             mu: float | None = 0.) -> float:
+                             mu: float | None = None) -> float:
         """1/m'thly Woolhouse whole life insurance: A_x
  
         Args:
@@ -50,7 +50,7 @@ class Woolhouse(Mthly):
         return b * self.insurance_twin(self.whole_life_annuity(x, s=s, mu=mu))
 
     def term_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
-                       b: int = 1, mu: float | None = 0., 
+                       b: int = 1, mu: float | None = None, 
                        mu1: float | None = None) -> float:
         """1/m'thly Woolhouse term insurance: A_x:t
 
@@ -124,7 +124,7 @@ class Woolhouse(Mthly):
         a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
              (self.m - 1)/(2 * self.m))
         if self.three_term:
-            mu = mu or self.mu_x(x, s)
+            mu = self.mu_x(x, s) if mu is None else mu
             a -= (mu + self.life.interest.delta)*(self.m**2 - 1)/(12 * self.m**2)
         return a * b
 
-- 
2.43.0


From b9e3e0bd791f81212293a7dfbae77a9ca96c58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 061/101] fix: Woolhouse took the third term at ages that
 nobody reaches, where it does not exist

---
 src/actuarialmath/woolhouse.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 7c858ff..93fe78e 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -66,6 +66,8 @@ class Woolhouse(Mthly):
         if t < 0 or self.life.max_term(x+s, t) < t:
             return A
         E = self.E_x(x, s=s, t=t)
+        if E == 0:  # no survivors at end of term
+            return A
         return A - E * self.whole_life_insurance(x, s=s+t, b=b, mu=mu1)
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
@@ -105,6 +107,8 @@ class Woolhouse(Mthly):
         if self.life.max_term(x+s, u) < u:
             return 0.
         E = self.E_x(x, s=s, t=u)
+        if E == 0:  # no survivors at end of deferral
+            return 0.
         return E * self.term_insurance(x, s=s+u, t=t, b=b, mu=mu, mu1=mu1)
 
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
@@ -156,10 +160,14 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        a_x = self.whole_life_annuity(x, s=s+u, mu=mu)
-        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t > 0 else 0
-        a = self.E_x(x, s=s, t=u) * (a_x - self.E_x(x, s=s+u, t=t) * a_xt)
-        return a * b
+        E_u = self.E_x(x, s=s, t=u)
+        if E_u == 0:  # no survivors at end of deferral
+            return 0.
+        a = self.whole_life_annuity(x, s=s+u, mu=mu)
+        E_t = self.E_x(x, s=s+u, t=t) if t > 0 else 0
+        if E_t > 0:   # deduct annuity of survivors at end of term
+            a -= E_t * self.whole_life_annuity(x, s=s+t+u, mu=mu1)
+        return E_u * a * b
 
 if __name__ == "__main__":
     from actuarialmath.sult import SULT
-- 
2.43.0


From 494d7cbaa93055bcd78168b0dd6bfa285b0077bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 062/101] fix: Woolhouse approximation of the force of
 mortality failed at selection for mortality laws

---
 src/actuarialmath/woolhouse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 93fe78e..f065ec1 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -31,7 +31,8 @@ class Woolhouse(Mthly):
           s : years after selection
         """
         if self.approximate_mu is True:       # approximate mu from integer ages
-            return -.5 * sum([math.log(self.life.p_x(x, s=s+t)) for t in [0,-1]])
+            p_1 = self.life.p_x(x, s=s-1) if s > 0 else self.life.p_x(x-1, s=0)
+            return -.5 * (math.log(self.life.p_x(x, s=s)) + math.log(p_1))
         elif self.approximate_mu is False:
             return self.life.mu_x(x, s=s)     # use exact mu from survival model
         else:                                 # apply custom function for mu
-- 
2.43.0


From 693376ee82399c2df7294dcdbef1b99064a29ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 063/101] fix: Woolhouse annuity of no years was valued for the
 whole of life

---
 src/actuarialmath/woolhouse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index f065ec1..e4d410c 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -165,7 +165,7 @@ class Woolhouse(Mthly):
         if E_u == 0:  # no survivors at end of deferral
             return 0.
         a = self.whole_life_annuity(x, s=s+u, mu=mu)
-        E_t = self.E_x(x, s=s+u, t=t) if t > 0 else 0
+        E_t = self.E_x(x, s=s+u, t=t) if t >= 0 else 0
         if E_t > 0:   # deduct annuity of survivors at end of term
             a -= E_t * self.whole_life_annuity(x, s=s+t+u, mu=mu1)
         return E_u * a * b
-- 
2.43.0


From c60e24e718d710d69e8d68ea2575053e75ddb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 064/101] fix: UDD deferred annuity starting at the limiting
 age was not zero

---
 src/actuarialmath/udd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index ff1f064..4cadb4d 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -186,7 +186,7 @@ class UDD(Mthly):
             return b**2 * (E2*a2 - (E1*a1)**2)
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        E = self.E_x(x, s=s, t=u) * (1 - self.E_x(x, s=s+u, t=t))
+        E = self.E_x(x, s=s, t=u) - (self.E_x(x, s=s, t=u+t) if t >= 0 else 0)
         return (a * self.alpha_m - self.beta_m * E) * b
 
     @staticmethod
-- 
2.43.0


From 78aa28200e76715baf1c9ffa0e13faf03da93482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 065/101] fix: an unknown extra risk raised a NameError instead
 of saying what is allowed

---
 src/actuarialmath/extrarisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index ee466b9..1e97f95 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -22,7 +22,7 @@ class ExtraRisk(Actuarial):
                  risk: str = "",
                  extra: float = 0.) -> "ExtraRisk":
         """Specify type and amount of mortality adjustment to apply"""
-        assert not risk or risk in self.risks, "risk must be one of " + str(risks)
+        assert not risk or risk in self.risks, "risk must be one of " + str(self.risks)
         assert extra >= 0, "amount of extra risk must be non-negative"
         self.life = life
         self.extra_ = extra
-- 
2.43.0


From 1886b413d79850b356e37cff1926aaa268aff778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 066/101] fix: ExtraRisk mortality rate was None without extra
 risk, and above 1 for large multiples

---
 src/actuarialmath/extrarisk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index 1e97f95..1e2d61d 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -81,7 +81,8 @@ class ExtraRisk(Actuarial):
         if self.risk_ in ["ADD_AGE"]:
             return self.life.q_x(x + self.extra_, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
-            return self.extra_ * self.life.q_x(x, s=s)
+            return min(1., self.extra_ * self.life.q_x(x, s=s))
+        return self.life.q_x(x, s=s)
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From 421b2cb50f2144b2fdb283dda4e0dd71f86ac629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 067/101] fix: survival probability of Beta and Uniform divided
 by zero at the limiting age

---
 src/actuarialmath/mortalitylaws.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index a0da71b..898bda8 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -109,6 +109,8 @@ class Beta(MortalityLaws):
             return radix * max(0, omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
+            if x+s >= omega:
+                return 0.
             return (max(0, omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-- 
2.43.0


From a96767111d7deafb593edfff7b7b727b48a61de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 068/101] fix: deaths given by SelectLife.set_select were
 replaced by expected lifetimes

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..c90200b 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
-- 
2.43.0


From 6fda537312398f7f6c89b676cd698a4ac6ef61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 069/101] fix: select table values were truncated before the
 last ages of the ultimate column

---
 src/actuarialmath/selectlife.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index c90200b..59f4050 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -71,22 +71,16 @@ class SelectLife(LifeTable):
           >>>                               e={57: [None, None, None, 1]})
           >>> print(life.e_r(58, s=2))
         """
-        periods = self.periods_    # infer number of select years, and age range
-        minage = self._MINAGE 
-        maxage = self._MAXAGE
-        
+        periods = self.periods_    # infer number of select years
         for lbl, table in [('A',A), ('a',a), ('q',q), ('d',d), ('l',l), ('e',e)]:
             self._select[lbl] = {}
             if table:     # update given table cells
                 for age, row in table.items():
                     periods = max(len(row) - 1, periods)
-                    minage = age if minage < 0 else min(minage, age)
-                    maxage = age if maxage < 0 else max(maxage, age)
                     self._select[lbl][age] = {k:v for k,v in enumerate(row)}
 
         self.periods_ = periods    # update number of select years, and age range
-        self._MINAGE = minage
-        self._MAXAGE = maxage
+        self._set_ages()
 
         if fill:         # iteratively fill missing table values
             self.fill_table(radix=radix)
@@ -137,15 +131,22 @@ class SelectLife(LifeTable):
                     if x not in self._select[table]:
                         self._select[table][x] = {}
                     self._select[table][x][s] = item[age]
-
-                    if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
-                        self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
-                        self._MAXAGE = x
+        self._set_ages()
         if fill:
             self.fill_table(radix=radix)
         return self
 
+    def _set_ages(self):
+        """Helper to infer the first age selected and the last age reached"""
+        ages = [x for rows in self._select.values() for x in rows]
+        lives = [x + s + (table == 'q')   # mortality rate reaches the next age
+                 for table, rows in self._select.items()
+                 for x, row in rows.items() 
+                 for s, value in row.items() if value is not None]
+        if ages:
+            self._MINAGE = min(ages)
+            self._MAXAGE = max(lives + ages)
+
     def _get_sel(self, x: int, s: int, table: str) -> float | None:
         """Helper to read right across, and down if neccesary (when s > n)"""
         if s > self.periods_:
@@ -259,6 +260,7 @@ class SelectLife(LifeTable):
                             / (1 - self._get_sel(_x, _s, 'q'))) - 1
 
         # Iterate a few times to impute select table values
+        ages = [x for rows in self._select.values() for x in rows]
         funs = {'l': l_x, 'A': A_x, 'a': a_x, 'q': q_x, 'd': d_x, 'e': e_x}
         curr = 0   # number of updates filled in
         for loop in range(2):   # loop second time if need to assume radix
@@ -268,7 +270,7 @@ class SelectLife(LifeTable):
                 for tab, fun in funs.items():   # for each table
                     if tab not in self._select:
                         self._select[tab] = {}
-                    for x in range(self._MINAGE, self._MAXAGE + 1):  # for each age
+                    for x in range(min(ages), max(ages) + 1):  # for each age
                         if x not in self._select[tab]:
                             self._select[tab][x] = {}
                         for s in range(self.periods_+1): # each year after select
@@ -281,6 +283,7 @@ class SelectLife(LifeTable):
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
             if 0 not in self._select['l'][self._MINAGE]: # arbitrary initial lives
                 self._select['l'][self._MINAGE][0] = radix
+        self._set_ages()
         return self
 
     def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
-- 
2.43.0


From 36fa372c4a2774ca1bee02c343163326a4d053ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 070/101] fix: filling a select table divided by zero where all
 or none die within a year

---
 src/actuarialmath/selectlife.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 59f4050..df7de93 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -181,7 +181,7 @@ class SelectLife(LifeTable):
             if s >= self.periods_:      # if in ultimate, can also move up column
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # A_x+1 = (A_x - qv) / (p v)
-                if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'A'):
+                if self._get_sel(_x, _s, 'q') not in [None, 1] and self._isin_sel(_x, _s, 'A'):
                     q = self._get_sel(_x, _s, 'q')
                     return ((self._get_sel(_x, _s, 'A') - q * self.interest.v)
                             / (self.interest.v * (1 - q)))
@@ -200,7 +200,7 @@ class SelectLife(LifeTable):
             if s >= self.periods_:      # if in ultimate, can also move up column
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # a_x+1 = (a_x - 1) / (p v)
-                if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'a'):
+                if self._get_sel(_x, _s, 'q') not in [None, 1] and self._isin_sel(_x, _s, 'a'):
                     p = 1 - self._get_sel(_x, _s, 'q')
                     return (self._get_sel(_x, _s, 'a') - 1)/(p*self.interest.v)
 
@@ -211,9 +211,9 @@ class SelectLife(LifeTable):
                 return self._get_sel(x, s, 'l')
             if self._isin_sel(x, s-1, 'l') and self._isin_sel(x, s-1, 'q'):
                 return self._get_sel(x, s-1, 'l')*(1 - self._get_sel(x, s-1, 'q'))
-            if self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'q'):
+            if self._isin_sel(x, s+1, 'l') and self._get_sel(x, s, 'q') not in [None, 1]:
                 return self._get_sel(x, s+1, 'l') / (1 - self._get_sel(x, s, 'q'))
-            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q'):
+            if self._isin_sel(x, s, 'd') and self._get_sel(x, s, 'q') not in [None, 0]:
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'q')
 
             backwards = [(x, s-1)]  # to move backwards along row
@@ -235,7 +235,7 @@ class SelectLife(LifeTable):
             """Helper to solve for one-year mortality [x]+s: q_[x]+s"""
             if self._isin_sel(x, s, 'q'):
                 return self._get_sel(x, s, 'q')
-            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'l'):
+            if self._isin_sel(x, s, 'd') and self._get_sel(x, s, 'l') not in [None, 0]:
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'l')
             if self._isin_sel(x, s, 'e') and self._isin_sel(x, s+1, 'e'):
                 return 1 - (self._get_sel(x, s, 'e') 
@@ -255,7 +255,7 @@ class SelectLife(LifeTable):
             if s >= self.periods_:     # if in ultimate, can also move up column
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # e_x+1 = e_x/p_x - 1
-                if self._isin_sel(_x, _s, 'e') and self._isin_sel(_x, _s, 'q'):
+                if self._get_sel(_x, _s, 'q') not in [None, 1] and self._isin_sel(_x, _s, 'e'):
                     return (self._get_sel(_x, _s, 'e') 
                             / (1 - self._get_sel(_x, _s, 'q'))) - 1
 
-- 
2.43.0


From a8bf953094f754ac6546fa4b3ff89ce186eaebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 071/101] fix: select table assumed initial lives although
 numbers of lives or deaths were given

---
 src/actuarialmath/selectlife.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index df7de93..9365ca9 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -281,8 +281,10 @@ class SelectLife(LifeTable):
                                     curr += 1
                                     if self._verbose:
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
-            if 0 not in self._select['l'][self._MINAGE]: # arbitrary initial lives
-                self._select['l'][self._MINAGE][0] = radix
+            if not any(value is not None for tab in 'ld'     # assume arbitrary
+                       for row in self._select[tab].values() # initial lives
+                       for value in row.values()):
+                self._select['l'][min(ages)][0] = radix
         self._set_ages()
         return self
 
-- 
2.43.0


From 88f676557a3dbfcd5d725190e60bda63710c8f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 072/101] fix: select table survival and mortality failed past
 the age by which all have died

---
 src/actuarialmath/selectlife.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 9365ca9..dad14af 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -333,7 +333,12 @@ class SelectLife(LifeTable):
           s : years after selection
           t : survives t years
         """
-        return np.prod([1 - self._get_sel(x, s+y, 'q') for y in range(t)])
+        p = 1.
+        for y in range(t):
+            if p == 0:    # nobody is alive past the end of the table
+                break
+            p *= 1 - self._get_sel(x, s+y, 'q')
+        return p
 
     def q_x(self, x: int, s: int = 0, t: int = 1, u: int = 0) -> float:
         """t|u_q_[x]+s = [x]+s survives u years, does not survive next t
@@ -344,7 +349,7 @@ class SelectLife(LifeTable):
           u : survives u years, then
           t : dies within next t years
         """
-        return (1. - self.p_x(x, s=s + u, t=t)) * self.p_x(x, s=s, t=u)
+        return self.p_x(x, s=s, t=u) - self.p_x(x, s=s, t=u+t)
 
     def e_x(self, x: int, s: int = 0, t: int = LifeTable.WHOLE,
             curtate: int = True) -> float:
-- 
2.43.0


From 41b610197ec886e7cd0977f06dde38136f8fa8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 073/101] fix: select table expected lifetime ignored the term
 or stopped after one year

---
 src/actuarialmath/selectlife.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index dad14af..f43d7d9 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -160,6 +160,13 @@ class SelectLife(LifeTable):
         """Helper to check if value not missing"""
         return self._get_sel(x, s, table) is not None
 
+    def _whole(self, x: int, s: int) -> int:
+        """Helper to count the years to the end of the table from [x]+s"""
+        t = 0
+        while self._isin_sel(x, s+t, 'q'):
+            t += 1
+        return t
+
     def fill_table(self, radix: int = LifeTable._RADIX) -> "SelectLife":
         """Fills in missing table values (does not check for consistency)
 
@@ -352,7 +359,7 @@ class SelectLife(LifeTable):
         return self.p_x(x, s=s, t=u) - self.p_x(x, s=s, t=u+t)
 
     def e_x(self, x: int, s: int = 0, t: int = LifeTable.WHOLE,
-            curtate: int = True) -> float:
+            curtate: int = True, moment: int = 1) -> float:
         """Returns expected life time computed from select table
 
         Args:
@@ -361,10 +368,12 @@ class SelectLife(LifeTable):
           t : limit of expected future lifetime
         """
         assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
+        if moment != 1:
+            return super().e_x(x, s=s, t=t, curtate=curtate, moment=moment)
+        if t < 0 and self._isin_sel(x, s, 'e'):
             return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
-        return e
+        t = self._whole(x, s) if t < 0 else self.max_term(x+s, t)
+        return sum([self.p_x(x, s=s, t=k+1) for k in range(t)])
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
         """Returns select and ultimate table values as a DataFrame
-- 
2.43.0


From 66f0ecf7ceb0e51e275e1839014bea0dcab2ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 074/101] fix: select table insurances and annuities ignored
 term, deferral and benefits, and given annuity values

---
 src/actuarialmath/selectlife.py | 72 ++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index f43d7d9..6ae05f6 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -2,7 +2,7 @@
 
 MIT License. Copyright 2022-2023 Terence Lim
 """
-from typing import Dict, List
+from typing import Callable, Dict, List
 import math
 import matplotlib.pyplot as plt
 import numpy as np
@@ -295,33 +295,77 @@ class SelectLife(LifeTable):
         self._set_ages()
         return self
 
-    def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
-            **kwargs) -> float:
+    def A_x(self, x: int, s: int = 0, t: int = LifeTable.WHOLE, u: int = 0,
+            benefit: Callable | None = None, endowment: float = 0.,
+            moment: int = 1, discrete: bool = True) -> float:
         """Returns insurance value computed from select table
 
         Args:
           x : age of selection
           s : years after selection
+          t : term of insurance in years
+          u : deferral in years
+          benefit : amount of benefit by age and time, defaults to 1
+          endowment : endowment amount
         """
         assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
-            return self._get_sel(x, s, 'A')
-        else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
-
-    def a_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
-            **kwargs) -> float:
+        if t < 0 and u == 0 and benefit is None:   # whole life value in table
+            if self._isin_sel(x, s, 'A'):
+                return self._get_sel(x, s, 'A')
+            if self._isin_sel(x, s, 'a'):
+                return self.insurance_twin(self._get_sel(x, s, 'a'))
+        if t < 0:
+            t = self._whole(x, s + u)
+        return super().A_x(x, s=s, t=t, u=u, benefit=benefit or (lambda x,t: 1.),
+                           endowment=endowment, moment=1, discrete=True)
+
+    def a_x(self, x: int, s: int = 0, t: int = LifeTable.WHOLE, u: int = 0,
+            benefit: Callable | None = None, discrete: bool = True) -> float:
         """Returns annuity value computed from select table
 
         Args:
           x : age of selection
           s : years after selection
+          t : term of annuity in years
+          u : deferral in years
+          benefit : amount of payment by age and time, defaults to 1
         """
-        assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        assert discrete, "Must be discrete annuity"
+        if t < 0 and u == 0 and benefit is None and self._isin_sel(x, s, 'a'):
             return self._get_sel(x, s, 'a')
-        else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+        if t < 0:
+            t = self._whole(x, s + u)
+        return super().a_x(x, s=s, t=t, u=u, benefit=benefit or (lambda x,t: 1.),
+                           discrete=True)
+
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1,
+                             b: int = 1, discrete: bool = True) -> float:
+        """Whole life insurance, from the value in the select table if any
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : amount of benefit
+        """
+        if moment == 1:
+            return b * self.A_x(x, s=s, discrete=discrete)
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b,
+                                            discrete=discrete)
+
+    def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
+                           variance: bool = False,
+                           discrete: bool = True) -> float:
+        """Whole life annuity, from the value in the select table if any
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : amount of benefit
+        """
+        if discrete and not variance and self._isin_sel(x, s, 'a'):
+            return b * self._get_sel(x, s, 'a')
+        return super().whole_life_annuity(x, s=s, b=b, variance=variance,
+                                          discrete=discrete)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
-- 
2.43.0


From 555c2304cbf02b4bc63ff117f7e6e69134afe1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 075/101] fix: number of lives in a select table was None, not
 0, after everyone has died

---
 src/actuarialmath/selectlife.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 6ae05f6..411c6ef 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -374,7 +374,14 @@ class SelectLife(LifeTable):
           x : age of selection
           s : years after selection
         """
-        return self._get_sel(x, s, 'l')
+        lives = None
+        for k in range(s + 1):
+            if self._isin_sel(x, k, 'l'):
+                lives = self._get_sel(x, k, 'l')
+            elif lives:         # next age is not in table
+                q = self._get_sel(x, k-1, 'q')
+                lives = None if q is None else lives * (1 - q)
+        return lives            # remains 0 when nobody is left
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
-- 
2.43.0


From c46144ebe4349fb585d8a6e54374a8de24ee1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 076/101] fix: select table survival of nobody failed past the
 end of the table

---
 src/actuarialmath/selectlife.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 411c6ef..5d965a0 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -393,8 +393,8 @@ class SelectLife(LifeTable):
         """
         p = 1.
         for y in range(t):
-            if p == 0:    # nobody is alive past the end of the table
-                break
+            if p == 0 or self.l_x(x, s=s+y) == 0:   # nobody is alive past the
+                return 0.                           # end of the table
             p *= 1 - self._get_sel(x, s+y, 'q')
         return p
 
-- 
2.43.0


From 2ca322fc8a080592c4e2cedffa4f837cd09c95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 077/101] fix: ExtraRisk rates of a select table failed at ages
 beyond those selected

---
 src/actuarialmath/extrarisk.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index 1e2d61d..ff2a516 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -6,6 +6,7 @@ from typing import Dict
 import math
 from actuarialmath import Survival
 from actuarialmath import Actuarial
+from actuarialmath import SelectLife
 
 class ExtraRisk(Actuarial):
     """Adjust mortality by extra risk
@@ -44,7 +45,11 @@ class ExtraRisk(Actuarial):
                                                         q=extra['q'])
         """
         f = {'q': self.q_x, 'p': self.p_x}[col[0]]
-        return {x: f(x) for x in range(self.life._MINAGE, self.life._MAXAGE+1)}
+        ages = range(self.life._MINAGE, self.life._MAXAGE+1)
+        if isinstance(self.life, SelectLife):   # ages with rates at selection
+            add = self.extra_ if self.risk_ in ["ADD_AGE"] else 0
+            ages = [x for x in ages if self.life._isin_sel(x + add, 0, 'q')]
+        return {x: f(x) for x in ages}
 
     def p_x(self, x: int, s: int = 0) -> float:
         """Return p_[x]+s after adding or multiplying force of mortality
-- 
2.43.0


From 6d108fbe0cedee1a1d3d116b4c501d73e9bb9308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 078/101] fix: one-year discrete insurance by recursion raised
 AttributeError

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..8fce8e2 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1258,7 +1258,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), f"*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
-- 
2.43.0


From 3dbc24da7294f37a387e8d711c423a32a9b7175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 079/101] fix: recursions for deferred insurance were never
 tried, and raised NameError

---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 8fce8e2..74e8ed7 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1180,11 +1180,11 @@ class Recursion(Reserves):
         if depth <= 0:
             return None
 
-        if discrete and u > 0:  # (1) deferred insurance  
+        if u > 0:  # (1) deferred insurance  
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-            if A is not None and p is not None:  # (1a) backward E_x * A
+            if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
@@ -1417,8 +1417,8 @@ class Recursion(Reserves):
                                             discrete=discrete,
                                             endowment=0, moment=moment),
                               levels=self.maxdepth)
-        A = self._get_A(x=x, s=s, t=t, b=b, u=u, discrete=discrete, 
-                        moment=moment)
+        A = self._A_x(x=x, s=s, t=t, b=b, u=u, discrete=discrete, 
+                      moment=moment, depth=self.maxdepth)
         if A is not None:
             self.blog.display()
             return A
-- 
2.43.0


From abc046c13190d91714ace15084b52f226092bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 080/101] fix: increasing insurance recursion increased
 benefits of the first year only

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 74e8ed7..c04454c 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -962,7 +962,7 @@ class Recursion(Reserves):
                 self.blog.pop(depth=depth)
 
         if discrete:
-            A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
+            A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
             if A is not None and IA is not None and p is not None:
-- 
2.43.0


From bcd857f13cf610d14a5840eeafe6ed21ee720c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 081/101] fix: decreasing insurance recursion rejected all
 terms, ignored b and mixed up increasing and decreasing

---
 src/actuarialmath/recursion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index c04454c..e1ecc03 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1037,18 +1037,18 @@ class Recursion(Reserves):
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
@@ -1059,7 +1059,7 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
@@ -1068,7 +1068,7 @@ class Recursion(Reserves):
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 6c5a2b2c03177271db55c7b40b7eabff766b9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 082/101] fix: higher moments of pure endowments were those of
 one year, unit benefit

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index e1ecc03..427c968 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -821,13 +821,13 @@ class Recursion(Reserves):
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
-            if E:  # (1) Shortcut: 2E_x = v E_x
+            E = self._E_x(x, s=s, t=t, endowment=endowment, depth=depth)
+            if E is not None:  # (1) Shortcut: 2E_x = v E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
                           f"= " + self.pprint.m(moment*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return E * (endowment * self.interest.v_t(t))**(moment-1)
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From c345e8ec66b35e6c769f038c4eb7e11047865f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 083/101] fix: higher moments and variances were scaled by the
 benefit amount to the power one

---
 src/actuarialmath/recursion.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 427c968..f3ea745 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -793,7 +793,7 @@ class Recursion(Reserves):
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
         if val is not None:
-            return val * endowment   # stored with benefit=1
+            return val * endowment**abs(moment)  # stored with benefit=1
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +807,7 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        val /= endowment**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -1128,7 +1128,7 @@ class Recursion(Reserves):
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * scale   # stored with benefit=1
+            return val * scale**abs(moment)   # stored with benefit=1
 
 
     def set_A(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
@@ -1152,12 +1152,12 @@ class Recursion(Reserves):
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
         if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
+            val /= b**abs(moment)
         elif b == 0:
             val /= endowment   # store with benefit=1
         else:
             if b != 1:
-                val /= b
+                val /= b**abs(moment)
                 endowment /= b
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
@@ -1478,7 +1478,7 @@ class Recursion(Reserves):
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * b    # stored with benefit=1
+            return val * b**(1 + bool(variance))    # stored with benefit=1
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1498,7 +1498,7 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        val /= b**(1 + bool(variance))    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
-- 
2.43.0


From f77e41453773fb6dbf053c73fcf856bbabf9ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 084/101] fix: insurance without death benefit was mixed up
 with endowment insurance

---
 src/actuarialmath/recursion.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f3ea745..90ab6d9 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1118,10 +1118,9 @@ class Recursion(Reserves):
             endowment = b
         if t == 0:          # terminal value of insurance
             return endowment
-        if b == 0:          # normalize insurance factor by benefit amount
-            scale = endowment
-            endowment = 1
-        else:
+        if b == 0:          # pure endowment
+            return self._get_E(x, s=s, t=t, endowment=endowment, moment=moment)
+        else:               # normalize insurance factor by benefit amount
             scale = b
             endowment = 1 if b == endowment else endowment / b
         key = self._db_key('A', x=x+s, u=u, t=t, moment=moment, 
@@ -1151,10 +1150,10 @@ class Recursion(Reserves):
         """
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
+        if b == 0:             # pure endowment
+            return self.set_E(val, x=x, s=s, t=t, endowment=endowment, moment=moment)
         if endowment == 0:     # normalize insurance factor by benefit amount
             val /= b**abs(moment)
-        elif b == 0:
-            val /= endowment   # store with benefit=1
         else:
             if b != 1:
                 val /= b**abs(moment)
-- 
2.43.0


From 168f7b5ad3dacc6cecd1d9eaf9cdaee5b39406ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 085/101] fix: removing a fact of insurances and annuities
 raised TypeError

---
 src/actuarialmath/recursion.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 90ab6d9..b1b6b33 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -395,8 +395,8 @@ class Recursion(Reserves):
           key : key of the item
           value : value to store for item
         """
-        if value is None and key in self.db:
-            self.db.pop(key)
+        if value is None:
+            self.db.pop(key, None)
         else:
             self.db[key] = value
             label = key[0]
@@ -807,7 +807,8 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment**abs(moment)   # store with benefit=1
+        if val is not None:
+            val /= endowment**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -932,7 +933,8 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous increasing insurance
         """
-        val /= b   # store with benefit=1
+        if val is not None:
+            val /= b   # store with benefit=1
         return self._db_put(self._db_key('IA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
@@ -1030,7 +1032,8 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous decreasing insurance
         """
-        val /= b     # store with benefit=1
+        if val is not None:
+            val /= b     # store with benefit=1
         return self._db_put(self._db_key('DA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
@@ -1152,12 +1155,9 @@ class Recursion(Reserves):
             endowment = b
         if b == 0:             # pure endowment
             return self.set_E(val, x=x, s=s, t=t, endowment=endowment, moment=moment)
-        if endowment == 0:     # normalize insurance factor by benefit amount
+        if val is not None:    # normalize insurance factor by benefit amount
             val /= b**abs(moment)
-        else:
-            if b != 1:
-                val /= b**abs(moment)
-                endowment /= b
+        endowment /= b
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
                                          discrete=discrete), val)
@@ -1497,7 +1497,8 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b**(1 + bool(variance))    # store with benefit=1
+        if val is not None:
+            val /= b**(1 + bool(variance))    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
-- 
2.43.0


From a9bc08db84a0d8fc3167023b447547680067dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 086/101] fix: annuity and insurance twins of recursion ignored
 the benefit amount

---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index b1b6b33..dd59d02 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1373,7 +1373,7 @@ class Recursion(Reserves):
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a / b, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1449,7 +1449,7 @@ class Recursion(Reserves):
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a / b, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1608,7 +1608,7 @@ class Recursion(Reserves):
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A / b, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1646,7 +1646,7 @@ class Recursion(Reserves):
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A / b, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
-- 
2.43.0


From a989e65b70ec65d18eb8cbe7fcfea2572a72185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 087/101] fix: deferred annuity lost its deferral period

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index dd59d02..a37d79c 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1681,7 +1681,7 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, b=b, t=t, u=u, discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From 1b6c365cbd99bf26bd6d80d8823d2310965f98bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 088/101] fix: recursion treated variances as moments: wrong
 one-year values and AssertionError

---
 src/actuarialmath/recursion.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index a37d79c..6cc3732 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1120,7 +1120,7 @@ class Recursion(Reserves):
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
         if t == 0:          # terminal value of insurance
-            return endowment
+            return 0 if moment == self.VARIANCE else endowment**moment
         if b == 0:          # pure endowment
             return self._get_E(x, s=s, t=t, endowment=endowment, moment=moment)
         else:               # normalize insurance factor by benefit amount
@@ -1167,6 +1167,9 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
+        if moment == self.VARIANCE:  # recursions apply to moments only
+            return self._get_A(x=x, s=s, t=t, b=b, u=u, discrete=discrete, 
+                               moment=moment, endowment=endowment)
         if endowment == b and t == 1 and discrete: # 1-year endow ins
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
@@ -1506,6 +1509,9 @@ class Recursion(Reserves):
              u: int = 0, b: int = 1, discrete: bool = True, 
              variance: bool = False, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
+        if variance:  # recursions apply to expected values only
+            return self._get_a(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
+                               variance=variance)
         if t == 1 and not u and discrete:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
-- 
2.43.0


From 9b77a7af95043984a3adbcda986283971b67d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 089/101] fix: expected lifetime recursion took minutes, and
 read past terms as whole life

---
 src/actuarialmath/recursion.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6cc3732..a74ad7c 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -719,12 +719,16 @@ class Recursion(Reserves):
                     else:
                         self.blog.pop(depth=depth)
 
-            for u in range(1, 50):
-                e = self._e_x(x, s=s-u, t=self.add_term(t, u), curtate=curtate,
-                              moment=1, depth=depth-1)
-                e1 = self._e_x(x, s=s-u, t=u, curtate=curtate, moment=1,
-                               depth=depth-1)
+            terms = {v for key in self.db for k,v in key[1:]  # terms of given facts
+                     if key[0] in 'pqe' and k == 't' and v > 0}
+            for u in sorted(terms.union(self._t['e'])):
                 p = self._p_x(x, s=s-u, t=u)
+                e = e1 = None
+                if p:
+                    e = self._e_x(x, s=s-u, t=self.add_term(t, u), curtate=curtate,
+                                  moment=1, depth=depth-1)
+                    e1 = self._e_x(x, s=s-u, t=u, curtate=curtate, moment=1,
+                                   depth=depth-1)
                 if e is not None and e1 is not None and p is not None:
                     #_t = "" if t < 0 else ":" + str(t)
                     #msg = f"forward e_{x+s}{_t} = e_{x+s}:1 + p_{x+s} e_{x+s+1}"
@@ -738,10 +742,14 @@ class Recursion(Reserves):
                 else:
                     self.blog.pop(depth=depth)
 
-                e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1, depth=depth-1)
-                e_t = self._e_x(x, s=s+u, t=self.add_term(t, -u), curtate=curtate,
-                                moment=1, depth=depth-1)
+                if t >= 0 and u >= t:  # no term left after u years
+                    continue
                 p = self._p_x(x, s=s, t=u)
+                e = e_t = None
+                if p is not None:
+                    e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1, depth=depth-1)
+                    e_t = self._e_x(x, s=s+u, t=self.add_term(t, -u), curtate=curtate,
+                                    moment=1, depth=depth-1)
                 if e is not None and e_t is not None and p is not None:
                     self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
                               self.pprint.e(x=x ,s=s, t=u, curtate=curtate), '+',
-- 
2.43.0


From 651494d6132a8aa0f6cc46f2496f93564e1748c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 090/101] fix: one-year curtate lifetime gave up when the
 survival probability is not given

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index a74ad7c..c9bc3fb 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -695,7 +695,7 @@ class Recursion(Reserves):
         if moment == 1:
             if t > 0:  
                 p_t = self._p_x(x, s=s, t=t)
-                if t == 1 and curtate:
+                if t == 1 and curtate and p_t is not None:
                     self.blog(self.pprint.e(x=x, s=s, t=1, curtate=curtate), '=',
                               self.pprint.p(x=x, s=s, t=1),
                               #f"e_{x+s}:1",
-- 
2.43.0


From a05cf8881c06f211c13a93b40371bb9aadcce2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 091/101] fix: recursion stopped at a division by zero instead
 of trying other formulas

---
 src/actuarialmath/recursion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index c9bc3fb..aeed89b 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -548,7 +548,7 @@ class Recursion(Reserves):
         # (2a) inverse chain rule: p_x(t) = p_x-1(t+1) / p_x-1 
         found = self._p_x(x, s=s-1, t=t+1, depth=depth-1)
         p = self._p_x(x, s=s-1, t=1, depth=depth-1)
-        if found is not None and p is not None:
+        if found is not None and p:
             self.blog(self.pprint.p(x=x, s=s, t=t), '=',
                       self.pprint.p(x=x, s=s-1, t=t+1), '/',
                       self.pprint.p(x=x, s=s-1, t=1),
@@ -560,7 +560,7 @@ class Recursion(Reserves):
         # (2b) inverse chain rule: p_x(t) = p_x(t+1) / p_x+t 
         found = self._p_x(x, s=s, t=t+1, depth=depth-1)
         p = self._p_x(x, s=s+t, t=1, depth=depth-1)
-        if found is not None and p is not None:
+        if found is not None and p:
             self.blog(self.pprint.p(x=x, s=s, t=t), '=',
                       self.pprint.p(x=x, s=s, t=t+1), '/',
                       self.pprint.p(x=x, s=s+t, t=1),
@@ -609,7 +609,7 @@ class Recursion(Reserves):
                 # (4a) annuity recursion: p_x = [a_x(t) - 1] / [v a_x+1(t-1)
                 a = self._a_x(x, s=s, t=_t, depth=depth-1)
                 a1 = self._a_x(x, s=s+1, t=self.add_term(_t, -1), depth=depth-1)
-                if a is not None and a1 is not None:
+                if a is not None and a1:
                     self.blog(self.pprint.p(x=x, s=s, t=1), '= [',
                               self.pprint.a(x=x, s=s, t=_t), '- 1 ] / [ v *',
                               self.pprint.a(x=x, s=s+1, t=_t-1), ']',
@@ -624,7 +624,7 @@ class Recursion(Reserves):
                     A = self._A_x(x, s=s, t=_t, endowment=endowment, depth=depth-1)
                     A1 = self._A_x(x, s=s+1, t=self.add_term(_t, -1), endowment=endowment,
                                    depth=depth-1)
-                    if A is not None and A1 is not None:
+                    if A is not None and A1 is not None and A1 != 1:
                         self.blog(self.pprint.p(x=x, s=s, t=1), '= [ v -',
                                   self.pprint.A(x=x, s=s, t=_t, endowment=endowment),
                                   '] / [v * [ 1 -',
@@ -1207,7 +1207,7 @@ class Recursion(Reserves):
             A = self._A_x(x, s=s-1, t=t, b=b, u=u+1, discrete=discrete, 
                           moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s-1, t=1, moment=moment, depth=depth-1)
-            if A is not None and E is not None: # (1b) forward recursion
+            if A is not None and E: # (1b) forward recursion
                 msg = f"forward deferred {u}_A_{x+s}: {u+1}A_{x+s-1} / E"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.A(x=x, s=s-1, t=t, u=u+1, moment=moment), '/',
@@ -1342,7 +1342,7 @@ class Recursion(Reserves):
                       discrete=discrete, moment=moment, 
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s-1, t=1, depth=depth-1)
-        if A is not None and p is not None:  # (5) forward recursion
+        if A is not None and p:  # (5) forward recursion
             self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '= [',
                       self.pprint.A(x=x, s=s-1, t=t+1, b=b, moment=moment),
                       f"/", self.pprint.m(moment, v="v"), "-",
@@ -1551,7 +1551,7 @@ class Recursion(Reserves):
             found = self._a_x(x=x, s=s-1, t=t, b=b, u=u+1, discrete=discrete, 
                               depth=depth-1)         # FIXED u=u+1
             E = self._E_x(x, s=s-1, t=1, depth=depth-1)
-            if found is not None and E is not None:  # (1b) forward
+            if found is not None and E:  # (1b) forward
                 #msg = f"forward: {u}_a_{x+s} = {u+1}_a_{x+s-1}/E_{x+s-1}"
                 self.blog(self.pprint.a(x=x, s=s, u=u, t=t), '=',
                           self.pprint.a(x=x, s=s-1, t=t, u=u+1), '/',
@@ -1583,7 +1583,7 @@ class Recursion(Reserves):
             found = self._a_x(x=x, s=s-1, t=self.add_term(t, 1), b=b, u=u, 
                               discrete=discrete, depth=depth-1)
             E = self._E_x(x, s=s-1, t=1, depth=depth-1)
-            if found is not None and E is not None:  # (2b) forward
+            if found is not None and E:  # (2b) forward
                 _t = "" if t < 0 else f":{t-1}"
                 self.blog(self.pprint.a(x=x, s=s, t=t), '= [',
                           self.pprint.a(x=x, s=s-1, t=self.add_term(t, 1)), '- 1 ] /',
-- 
2.43.0


From 1d9089dc9969de82faad9e87f2ecb6d03e3de889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 092/101] fix: term and deferred insurances with a discount
 function were discounted as if issued later

---
 src/actuarialmath/insurance.py | 6 ++++++
 src/actuarialmath/mthly.py     | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index acca28e..f0ac962 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -133,6 +133,9 @@ class Insurance(Fractional):
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
             A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.interest.i is None:   # discount depends on time since issue
+            return self.A_x(x, s=s, t=t, benefit=lambda x,t: b,
+                            moment=moment, discrete=discrete)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
         if t < 0 or self.max_term(x+s, t=t) < t:
@@ -167,6 +170,9 @@ class Insurance(Fractional):
                                          discrete=discrete)
             A1 = self.deferred_insurance(x, s=s, t=t, u=u, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.interest.i is None:   # discount depends on time since issue
+            return self.A_x(x, s=s, t=t, u=u, benefit=lambda x,t: b,
+                            moment=moment, discrete=discrete)
         E = self.E_x(x, s=s, t=u, moment=moment)
         A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment, 
                                 discrete=discrete)
diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index ce74211..b9ac951 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -160,6 +160,8 @@ class Mthly(Actuarial):
             A2 = self.term_insurance(x, s=s, t=t, moment=2)
             A1 = self.term_insurance(x, s=s, t=t)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.life.interest.i is None:  # discount depends on time since issue
+            return self.A_x(x, s=s, t=t, benefit=lambda x,t: b, moment=moment)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment)
         if t < 0 or self.life.max_term(x+s, t) < t:
             return A
@@ -185,6 +187,9 @@ class Mthly(Actuarial):
             A2 = self.deferred_insurance(x, s=s, t=t, n=n, moment=2)
             A1 = self.deferred_insurance(x, s=s, t=t, n=n)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+        if self.life.interest.i is None:  # discount depends on time since issue
+            return self.A_x(x, s=s, t=t, u=n, benefit=lambda x,t: b, 
+                            moment=moment)
         E = self.E_x(x, s=s, t=n, moment=moment)
         A = self.term_insurance(x, s=s+n, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
-- 
2.43.0


From 0259d131b8fb5db112c2fe6d3bf1db59502cd881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 093/101] fix: annuities with a discount function raised
 TypeError

---
 src/actuarialmath/annuity.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 65fea71..7aeebc3 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -130,6 +130,8 @@ class Annuity(Insurance):
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
             return self.annuity_variance(A2=A2, A1=A1, discrete=discrete, b=b)
+        if interest is None:   # discount depends on time since issue
+            return b * self.a_x(x, s=s, discrete=discrete)
         if interest > 0:
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
@@ -164,6 +166,8 @@ class Annuity(Insurance):
             return self.annuity_variance(A2=A2, A1=A1, discrete=discrete, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
+        if self.interest.i is None:   # discount depends on time since issue
+            return b * self.a_x(x, s=s, t=t, discrete=discrete)
         a = self.whole_life_annuity(x, s=s, b=b, discrete=discrete)
         if t < 0 or self.max_term(x+s, t) < t:
             return a
@@ -186,6 +190,8 @@ class Annuity(Insurance):
         Examples:
           >>> life.deferred_annuity(x=24, u=5, t=10, discrete=False)
         """
+        if self.interest.i is None:   # discount depends on time since issue
+            return b * self.a_x(x, s=s, t=t, u=u, discrete=discrete)
         a = self.temporary_annuity(x, s=s+u, t=t, b=b, discrete=discrete)
         return self.E_x(x, s=s, t=u) * a
 
-- 
2.43.0


From 791bdb1f13a301498eba1a8013d41ba95f010ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 094/101] fix: constant force and uniform shortcuts raised
 TypeError with a discount function

---
 src/actuarialmath/constantforce.py | 10 ++++++----
 src/actuarialmath/mortalitylaws.py |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 0a78435..b29578b 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -70,6 +70,8 @@ class ConstantForce(MortalityLaws):
         if moment == self.VARIANCE:  # second moment less square of first moment
             return (self.E_x(x, s=s, t=t, endowment=endowment, moment=2)
                     - self.E_x(x, s=s, t=t, endowment=endowment)**2)
+        if self.interest.i is None:   # discount function of time
+            return (endowment * self.interest.v_t(t))**moment * math.exp(-self.mu_ * t)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
@@ -93,7 +95,7 @@ class ConstantForce(MortalityLaws):
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
             return (b**2 * (A2 - A1**2) /
                     (self.interest.d if discrete else self.interest.delta)**2)
-        if not discrete:
+        if not discrete and self.interest.i is not None:
             den = self.mu_ + self.interest.delta
             return (1. / den) * b if den > 0 else math.inf
         return super().whole_life_annuity(x, s=s, b=b, discrete=discrete)
@@ -121,7 +123,7 @@ class ConstantForce(MortalityLaws):
                                           discrete=discrete)
             return (b**2 * (A2 - A1**2) /
                     (self.interest.d if discrete else self.interest.delta)**2)
-        if not discrete:
+        if not discrete and self.interest.i is not None:
             a = b * 1/(self.mu_ + self.interest.delta)
             if t < 0:
                 return a
@@ -140,7 +142,7 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if moment > 0 and not discrete:
+        if moment > 0 and not discrete and self.interest.i is not None:
             delta = moment * self.interest.delta   # multiply force of interest
             return (b**moment * self.mu_ / (self.mu_ + delta)
                     if self.mu_ > 0 else 0.)
@@ -159,7 +161,7 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if moment > 0 and not discrete:
+        if moment > 0 and not discrete and self.interest.i is not None:
             delta = moment * self.interest.delta   # multiply force of interest
             A = b**moment * self.mu_/(self.mu_ + delta)
             if t < 0:
diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 898bda8..7bcf598 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -229,7 +229,7 @@ class Uniform(Beta):
           discrete : benefit paid year-end (True) or moment of death (False)
         """
 
-        if not discrete:
+        if not discrete and self.interest.i is not None:
             if moment == Beta.VARIANCE:
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
@@ -252,7 +252,7 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete:
+        if not discrete and self.interest.i is not None:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
-- 
2.43.0


From 0de616c47d2d801b19cf41c24b64ec23697913d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 095/101] fix: UDD annuities kept the interest rate from when
 the UDD object was made

---
 src/actuarialmath/udd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4cadb4d..79f6110 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -17,8 +17,16 @@ class UDD(Mthly):
 
     def __init__(self, m: int, life: Annuity, **kwargs):
         super().__init__(m=m, life=life, **kwargs)
-        self.alpha_m = self.alpha(m=m, i=self.life.interest.i)
-        self.beta_m = self.beta(m=m, i=self.life.interest.i)
+
+    @property
+    def alpha_m(self) -> float:
+        """UDD alpha function value at the current interest rate of the life"""
+        return self.alpha(m=self.m, i=self.life.interest.i)
+
+    @property
+    def beta_m(self) -> float:
+        """UDD beta function value at the current interest rate of the life"""
+        return self.beta(m=self.m, i=self.life.interest.i)
 
     @staticmethod
     def alpha(m: int, i: float) -> float:
-- 
2.43.0


From 13e0690a98143dc9ffd87fcdb9d53d14234adc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 096/101] fix: plots annotated another benefit and survival
 probability than drawn; L_plot failed without T

---
 src/actuarialmath/annuity.py      | 6 +++---
 src/actuarialmath/insurance.py    | 6 +++---
 src/actuarialmath/policyvalues.py | 5 +++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 7aeebc3..2f83bf6 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -390,7 +390,7 @@ class Annuity(Insurance):
     
         if T is not None:
             # indicate PV benefit Y(T*)
-            Y = self.Y_from_t(T, discrete=discrete) * benefit(self._MINAGE, T)
+            Y = self.Y_from_t(T, discrete=discrete) * benefit(x, s+T)
             
             label1, = ax.plot(T, Y, c=color, marker='o',
                               label=f"Y({T:.2f})={Y:.4f}")            
@@ -398,7 +398,7 @@ class Annuity(Insurance):
             ax.legend(handles=[label1], loc='upper left')
 
             if dual:
-                prob = self.S(x, 0, T)
+                prob = self.S(x, s, T)
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -407,7 +407,7 @@ class Annuity(Insurance):
         ax.set_ylabel(f"$Y({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Y if T else None
+        return Y if T is not None else None
 
     def _Y_plot(self, x: int, s: int = 0, stop : int = 0,
                 benefit: Callable = lambda x,k: 1,
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index f0ac962..ca10151 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -417,14 +417,14 @@ class Insurance(Fractional):
             
         if T is not None:
             # indicate PV of benefit Z(T*)
-            Z = benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             label1, = ax.plot(T, Z, c=color, marker='o',
                               label=f"Z({T:.2f})={Z:.4f}")
             #ax.text(T + xjig, Z, f"Z({T:.2f})={Z:.4f}", c=color)
             ax.legend(handles=[label1], loc='lower left')
 
             if dual:
-                prob = self.S(x, 0, T)      # note: is opposite of annuity
+                prob = self.S(x, s, T)      # note: is opposite of annuity
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -433,7 +433,7 @@ class Insurance(Fractional):
         ax.set_ylabel(f"$Z({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Z if T else None
+        return Z if T is not None else None
 
     def _Z_plots(self,
                  x: int,
diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 23201cd..0a48b82 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -436,11 +436,12 @@ class PolicyValues(Premiums):
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
-        ax.set_title(f"PV future loss at issue r.v. $_0L$")
+        ax.set_title(f"PV future loss at issue r.v. $_0L$"
+                     if title is None else title)
         ax.set_ylabel(f"$L({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return z
+        return z if T is not None else None
 
     def _L_plot(self, x: int, s: int = 0, stop: int = 0,
                 T: float | None = None,
-- 
2.43.0


From 43fc3b374c31984837e990235576d1927d8b9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 097/101] fix: survival line of continuous plots of life tables
 raised TypeError or was not interpolated

---
 src/actuarialmath/annuity.py      | 2 +-
 src/actuarialmath/insurance.py    | 4 ++--
 src/actuarialmath/policyvalues.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 2f83bf6..a2cddfb 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -380,7 +380,7 @@ class Annuity(Insurance):
 
         # plot survival probabilities in secondary axis
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.S(x, s, t) for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if discrete else 'post')
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index ca10151..55c79d9 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -407,7 +407,7 @@ class Insurance(Fractional):
 
         # plot survival probabilities in secondary axis
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.S(x, s, t) for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if discrete else 'post')
@@ -522,7 +522,7 @@ class Insurance(Fractional):
         stop = stop or self._MAXAGE - (x + s)
         step = 1 if discrete else stop/1000.
         steps = np.arange(0, stop + step, step)
-        p = [self.p_x(x=x, s=s, t=t) for t in steps]
+        p = [self.S(x, s, t) for t in steps]
 
         # plot survival probabilities in secondary axis
         bx = ax.twinx()
diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 0a48b82..cb4f779 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -416,7 +416,7 @@ class PolicyValues(Premiums):
         xjig = (xmax - xmin) / 50
 
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.S(x, s, t) for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if contract.discrete else 'post')
-- 
2.43.0


From 7f0f7015b618b38a5f973c228ef5e2db1e4c11d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 098/101] fix: m-thly and UDD values without interest divided
 by zero; m-thly annuities with a discount function raised TypeError

---
 src/actuarialmath/mthly.py | 42 ++++++++++++++++++++++++++++++++++++++
 src/actuarialmath/udd.py   | 12 ++++++++---
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index b9ac951..46e001f 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -125,6 +125,25 @@ class Mthly(Actuarial):
             A = self.life.integral(Z, 0, t)
         return A
 
+    def a_x(self, x: int, s: int = 0, t: int = Annuity.WHOLE, u: int = 0,
+            benefit: Callable = lambda x,t: 1) -> float:
+        """Compute m'thly annuity factor a_x from survival to each payment
+
+        Args:
+          x : year of selection
+          s : years after selection
+          t : term of annuity in years
+          u : years of deferral
+          benefit : annual rate of payments as a function of age and time
+        """
+        if self.m == 0:
+            return self.life.a_x(x, s=s, t=t, u=u, benefit=benefit,
+                                 discrete=False)
+        t = self.life.max_term(x+s+u, t)
+        return sum([benefit(x+s, k/self.m) * self.life.interest.v_t(k/self.m)
+                    * self.p_m(x, s_m=s*self.m, t_m=k)
+                    for k in range(u * self.m, (u+t) * self.m)]) / self.m
+
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1) -> float:
         """Whole life insurance: A_x
@@ -256,6 +275,19 @@ class Mthly(Actuarial):
         den = self.life.interest.mthly(m=self.m, d=self.life.interest.d)
         return num / den**2
 
+    def _payments_variance(self, x: int, s: int = 0,
+                           t: int = Annuity.WHOLE) -> float:
+        """Variance of m'thly annuity without interest: of total amount paid
+
+        Args:
+          x : year of selection
+          s : years after selection
+          t : term of annuity in years
+        """
+        step = 1 / self.m if self.m else 0
+        a2 = self.a_x(x, s=s, t=t, benefit=lambda x,t: 2*t + step)
+        return max(0, a2 - self.a_x(x, s=s, t=t)**2)
+
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1, 
                            variance: bool = False) -> float:
         """Whole life m'thly annuity: a_x
@@ -266,10 +298,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
+        if variance and self.life.interest.d == 0:
+            return b**2 * self._payments_variance(x, s=s)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
+        if not self.life.interest.d:  # no interest or discount function
+            return b * self.a_x(x, s=s)
         return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
@@ -283,10 +319,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
+        if variance and self.life.interest.d == 0:
+            return b**2 * self._payments_variance(x, s=s, t=t)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
+        if not self.life.interest.d:  # no interest or discount function
+            return b * self.a_x(x, s=s, t=t)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
@@ -308,6 +348,8 @@ class Mthly(Actuarial):
         """
         if self.life.max_term(x+s, u) < u:
             return 0.
+        if self.life.interest.d is None:  # discount depends on time since issue
+            return b * self.a_x(x, s=s, t=t, u=u)
         return self.E_x(x, s=s, t=u)*self.temporary_annuity(x, s=s+u, t=t, b=b)
 
     def immediate_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 79f6110..580d5f5 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -36,6 +36,8 @@ class UDD(Mthly):
           m : number of payments per year
           i : annual interest rate
         """
+        if i == 0:
+            return 1.
         d = i / (1 + i)
         i_m = Interest.mthly(m=m, i=i)
         i_d = Interest.mthly(m=m, d=d)
@@ -49,6 +51,8 @@ class UDD(Mthly):
           m : number of payments per year
           i : annual interest rate
         """
+        if i == 0:
+            return (m - 1) / (2 * m) if m else 1/2
         d = i / (1 + i)
         i_m = Interest.mthly(m=m, i=i)
         i_d = Interest.mthly(m=m, d=d)
@@ -76,7 +80,7 @@ class UDD(Mthly):
         if moment == 2:
             i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * b**moment * i / i_m
+        return A * b**moment * (i / i_m if i else 1)
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                             endowment: int = -1, moment: int = 1) -> float:
@@ -125,7 +129,7 @@ class UDD(Mthly):
         if moment == 2:
             i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * (i / i_m)
+        return A * (i / i_m if i else 1)
 
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1, 
                            variance: bool = False) -> float:
@@ -212,7 +216,9 @@ class UDD(Mthly):
         for m in out.index:
             i_m = Interest.mthly(m=m, i=interest.i)
             d_m = Interest.mthly(m=m, d=interest.d)
-            out.loc[m] = [i_m, d_m, interest.i/i_m, interest.d/d_m, 
+            out.loc[m] = [i_m, d_m, interest.i/i_m if i else 1, 
+                          interest.d/d_m if i else 1,
+                          
                           UDD.alpha(m=m, i=interest.i), 
                           UDD.beta(m=m, i=interest.i)]
         return out.round(5)
-- 
2.43.0


From ba75e4754262d117354dc213760b19f5cfa60924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 099/101] fix: integrate between whole years where quadrature
 does not converge

Integrands of life tables jump at whole years, so that quad ran out of its
50 subdivisions and returned an insurance value off by up to 0.4 per cent.
---
 src/actuarialmath/actuarial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 179c325..8389326 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -56,6 +56,11 @@ class Actuarial(object):
           lower : lower limit
         """
         y = scipy.integrate.quad(fun, lower, upper, full_output=1)
+        if len(y) > 3 and math.isfinite(lower) and math.isfinite(upper):
+            years = range(math.floor(lower) + 1, math.ceil(upper))
+            if years:   # did not converge: split where jumps at whole years
+                y = scipy.integrate.quad(fun, lower, upper, points=years,
+                                         limit=len(years) + 50, full_output=1)
         return y[0]
 
     @staticmethod
-- 
2.43.0


From a58d36bfb8aeefb3e81cefb4d70e51a937cd4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 100/101] fix: continuous annuities and insurances of a zero
 force without interest divided by zero

---
 src/actuarialmath/constantforce.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index b29578b..41d713e 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -124,6 +124,8 @@ class ConstantForce(MortalityLaws):
             return (b**2 * (A2 - A1**2) /
                     (self.interest.d if discrete else self.interest.delta)**2)
         if not discrete and self.interest.i is not None:
+            if self.mu_ + self.interest.delta == 0:  # paid in full for certain
+                return b * t if t >= 0 else math.inf
             a = b * 1/(self.mu_ + self.interest.delta)
             if t < 0:
                 return a
@@ -163,6 +165,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete and self.interest.i is not None:
             delta = moment * self.interest.delta   # multiply force of interest
+            if self.mu_ == 0:   # nobody dies
+                return 0.
             A = b**moment * self.mu_/(self.mu_ + delta)
             if t < 0:
                 return A
-- 
2.43.0


From 7776ea1450743952e19cc9283ba130d503c844c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:17 +0000
Subject: [PATCH 101/101] fix: expected lifetime of a zero force divided by
 zero

---
 src/actuarialmath/constantforce.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 41d713e..8ae1e09 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -46,6 +46,8 @@ class ConstantForce(MortalityLaws):
             if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
+                if self.mu_ == 0:   # nobody dies
+                    return t if t >= 0 else math.inf
                 e = 1 / self.mu_  # infinite n case shortcut
                 if t >= 0:        # n-limited from recursion e_x=e_x|n + n_p_x e_x
                     e *= (1 - math.exp(-self.mu_ * t))
-- 
2.43.0

