From 098cefe263e32e5dc2e56c98aaa69ac31109c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:50 +0000
Subject: [PATCH 01/27] fix: zero-frequency evaluation used np.float, removed
 from numpy, so it always raised

---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..56da6a2 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype = float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From b9c18e424c6606563f27f58a64cb3f8b4d9bfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:52 +0000
Subject: [PATCH 02/27] fix: zero-frequency cavity coefficients of a plasma
 wall were not the k->0 limit

---
 CasimirRio/scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 10306f7..511ba6b 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -237,8 +237,8 @@ class scattering:
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
-                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
-                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])*wPR_c/(2*l-1)#k_wp[0:-1]/k_wp[1:]*wPR_c/(2*l-1)
+                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
+                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
                 bTE = (-(mu0_e*l + mu0_i*k_fracterm )
                        /( (l+1)*mu0_e - mu0_i*k_fracterm )
-- 
2.43.0


From fa2ebfaf5091235eabb535ea963dfb460d7a4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:00 +0000
Subject: [PATCH 03/27] fix: first evaluation at a frequency with m > 1 used
 Mie coefficients of the wrong orders

---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 56da6a2..e1aa467 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -166,7 +166,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA, mieB, V]
+        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
     def roundTrip_elements_k0(self, m, k):
         """Collect all necessyary Mie-coefficients and translation matrices
-- 
2.43.0


From 48c35814cb1a69b7524d58a3a448b7ed302f9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:06 +0000
Subject: [PATCH 04/27] fix: zero-frequency Mie coefficients were cached for
 the m of the first call

---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index e1aa467..5fe637b 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -198,14 +198,14 @@ class SphereSphere:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
             self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
                 self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
                 self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
             mieA_k0 = self.MieA_k0
             mieB_k0 = self.MieB_k0
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
@@ -217,7 +217,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0, mieB_k0, V_k0]
+        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
     def blockmatrices_k0_int(self, m):
         """ Returns a list of two blockmatrices corresponding to a subspace
-- 
2.43.0


From 22e82ff84930c6a0190806c1eac0015d7a8b0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:15 +0000
Subject: [PATCH 05/27] fix: scattering at a stratified sphere removed layers
 from the caller's lists

---
 CasimirRio/stratified_sphere_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..89f08de 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -26,8 +26,8 @@ class StratifiedMieScattering(scattering):
     def __init__(self, mat_list, r_list):  # nCore, nCoating, nMedium
         try:
             if type(mat_list) == list and type(r_list) == list:
-                self.mat_list = mat_list
-                self.r_list = r_list
+                self.mat_list = list(mat_list)
+                self.r_list = list(r_list)
                 assert(len(r_list)==len(mat_list)-1)
                 scattering.__init__(self, mat_list[0], mat_list[1])
         except:
-- 
2.43.0


From fcf4ab7d6b6f150351ae08284a7f8ae18f88e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:23 +0000
Subject: [PATCH 06/27] fix: Bessel functions were wrong unless the arguments
 were sorted in ascending order

---
 CasimirRio/bessel_sk.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..958c377 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -46,7 +46,7 @@ def fnu(x, nu):
 
     """
     Nmax = 80
-    if x[-1] > 100:
+    if (x > 100).any():
         Nmax = 140
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
@@ -66,22 +66,11 @@ def lniknu(x, lmax):
     lg = x >= 1e-3
     xsm = x[sm]
     xlg = x[lg]
-    if not xsm.shape[0] == 0 and not xlg.shape[0] == 0:
-        i0sm = xsm**2/6 - xsm**4/180 + xsm**6/2835
-        i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-        i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
-        i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
-    else:
-        if xsm.shape[0] == 0:
-            i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-            i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-            i0, i1 = i0lg, i1lg
-        if xlg.shape[0] == 0:
-            i0sm = xsm**2/6-xsm**4/180
-            i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2
-            i0, i1 = i0sm, i1sm
+    i0, i1 = np.empty(len(x)), np.empty(len(x))
+    i0[sm] = xsm**2/6 - xsm**4/180 + xsm**6/2835
+    i0[lg] = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
+    i1[sm] = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
+    i1[lg] = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
     lni[:, 0] = i0
     lnk = lnknu(x, lmax+1)
     if lmax == 0:
-- 
2.43.0


From c76962d3870e6efe6c8a08b4d6963717057b94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:42 +0000
Subject: [PATCH 07/27] fix: regular Bessel functions of order l >= 2 lost all
 accuracy for arguments above 1000

---
 CasimirRio/bessel_sk.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 958c377..75752f8 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -35,9 +35,10 @@ def fraction(x):
            http://dx.doi.org/10.2307/2006491
 
     """
-    if len(x[0, :]) == 1:
-        return x[:, 0]
-    return x[:, 0] + 1 / fraction(x[:, 1::])
+    result = x[:, -1]
+    for i in range(x.shape[1]-2, -1, -1):
+        result = x[:, i] + 1 / result
+    return result
 
 def fnu(x, nu):
     """returns I(nu, x)/I(nu+1, x)
@@ -47,7 +48,7 @@ def fnu(x, nu):
     """
     Nmax = 80
     if (x > 100).any():
-        Nmax = 140
+        Nmax = max(140, int(6.5*x.max()**0.5))
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
     an = 2 * (nu + n) / x
-- 
2.43.0


From 7fe3c08c28810982b73fdfae04a814aa9acbdf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:07 +0000
Subject: [PATCH 08/27] fix: a force evaluation changed the results of later
 energy evaluations

---
 CasimirRio/geometry.py       | 7 +++++--
 CasimirRio/thermodynamics.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 5fe637b..d38c93d 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -584,8 +584,11 @@ class SphereSphere:
            matrices returned by the blockmatrices() method.
 
         """
-        self.forceFlag = forceFlag
-        Ms = self.blockmatrices(m, matsubaras)
+        previous, self.forceFlag = self.forceFlag, forceFlag
+        try:
+            Ms = self.blockmatrices(m, matsubaras)
+        finally:
+            self.forceFlag = previous
         bigM = np.append(Ms[0], Ms[1], axis=2)
         bigM = np.append(bigM, np.append(Ms[2], Ms[3], axis=2), axis=1)
         return bigM
diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..6f81131 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -86,8 +86,11 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
 
         """
         self.forceFlag = 1
-        if self.force_matsubaras is None:
-            self.force_matsubaras = self.get_f_matsubaras(0)
+        try:
+            if self.force_matsubaras is None:
+                self.force_matsubaras = self.get_f_matsubaras(0)
+        finally:
+            self.forceFlag = 0
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
         Force_T = Ts*np.array([self.force_matsubaras[::i].sum()
                                for i in range(1, self.maxstep+1)])
-- 
2.43.0


From df1d1eed60c75d951d9d4c5677ba4df3701d5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:15 +0000
Subject: [PATCH 09/27] fix: single round-trip evaluation used xrange, which
 does not exist in Python 3

---
 CasimirRio/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index d38c93d..3e13919 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -523,7 +523,7 @@ class SphereSphere:
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
         TrM_matsubaras_m = np.array([np.trace(A[i,:,:]+D[i,:,:]) 
-                    for i in xrange(len(matsubaras))])
+                    for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
             mmax = round(np.log(self.precision)/np.log(0.5))
@@ -535,11 +535,11 @@ class SphereSphere:
             sh = np.shape(A)
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                            for i in xrange(len(matsubaras))])
+                            for i in range(len(matsubaras))])
                 return TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                                    for i in xrange(len(matsubaras))])
+                                    for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
                 return TrM_matsubaras_m
         return TrM_matsubaras_m
-- 
2.43.0


From 31aaadc56960288cf5790d72b4629866e41ff5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:22 +0000
Subject: [PATCH 10/27] fix: a slice holding only the zero frequency raised
 IndexError without the analytic limit

---
 CasimirRio/thermodynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 6f81131..6013bc5 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -159,6 +159,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
@@ -194,6 +196,8 @@ class oneRoundtrip(finiteT):
         if matsubaras[0] == 0.:
             if not self.forceFlag:
                 F_n_0 = 0.5 * self.geometry.mSum_oneRoundtrip(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSum_oneRoundtrip(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSum_trace_dot_oneRoundtrip(np.array([1e-10]))
-- 
2.43.0


From d93e786a5e7c70f5877dbda9d7447c9a0f3132fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:48 +0000
Subject: [PATCH 11/27] fix: the third job with the same result file overwrote
 the second result

---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..cde965a 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -149,7 +149,7 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    if os.path.exists(foutput):
+    while os.path.exists(foutput):
         foutput += "1"
     outfile = open(foutput, "w")
     comment = job_infos()
-- 
2.43.0


From 92f4668b635deeb18b8f3cf8df3062a50cf3ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:56 +0000
Subject: [PATCH 12/27] fix: the analytic_n0 option of a job was ignored

---
 CasimirRio/worker.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index cde965a..d910c41 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -107,11 +107,7 @@ def do_calculation():
         nmax = config.get("thermodynamics", "nmax")
         if not nmax == "automatic":
             print("nmax has to be given as integer or \"automatic\"") 
-    try:
-        analytic_n0 = config.get("geometry", "analytic_n0")
-    except ValueError:
-        print("analytic_n0 is not given correctly: ", analytic_n0)
-    analytic_n0 = True
+    analytic_n0 = config.getboolean("geometry", "analytic_n0", fallback=True)
     if type(geom.r1) == list or type(geom.r2) == list:
         analytic_n0 = False
     Tmax = config.getfloat("thermodynamics", "Tmax")
-- 
2.43.0


From 52ba6bdc77981904e3f7e83408879a1c2be3c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:04 +0000
Subject: [PATCH 13/27] fix: a job with automatic lmax failed without the
 optional l_offset

---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index d910c41..8ea775c 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -62,7 +62,7 @@ def return_geometry():
         if lmax == "automatic":
             try:
                 l_offset = config.getint("geometry", "l_offset")
-            except ValueError:
+            except (ValueError, ConfigParser.NoOptionError):
                 l_offset = None      
         if not lmax == "automatic":
             print("lmax has to be given as integer or \"automatic\"") 
-- 
2.43.0


From de06222068db93d60a172b48333ec3fb01dce0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:30 +0000
Subject: [PATCH 14/27] fix: the PFA force ignored the shielding of the zero
 frequency

---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 45c7cba..43e25c2 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -183,7 +183,7 @@ class SphereSpherePFA:
         nenner = r1+r2
         if d < r1+r2:
             nenner = max(r1, r2)-min(r1, r2)
-        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0))
+        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0), n0_shielding)
         return force
 
     def distance(self, r1, r2, d, rho):
-- 
2.43.0


From 082bc086d1e1eefe0956dd3f0b7530e8baf230ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:36 +0000
Subject: [PATCH 15/27] fix: the PFA energy failed when the first sphere is the
 larger one

---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 43e25c2..c80df46 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         Lrho = lambda rho: self.distance(r1, r2, d, rho)
         freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),
-                                           n0_shielding), 0, r1)[0]
+                                           n0_shielding), 0, min(r1, r2))[0]
         return freeE
 
     def spheresphereForce(self, r1, r2, T, d, n0_shielding = False):
-- 
2.43.0


From 6191f6957715303ab179c3475242f7f1ab7c8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:44 +0000
Subject: [PATCH 16/27] fix: raw_PFA.get_f_matsubaras overwrote the zero
 frequency in the caller's array

---
 CasimirRio/raw_PFA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..7b4b382 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,6 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
+            matsubaras = matsubaras.astype(float)
             matsubaras[0] = 1e-20
         norm = 2*np.pi
         integralTE = lambda kn: quad(
-- 
2.43.0


From be071730f808ba4daf5eda458897302b27c0c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:51 +0000
Subject: [PATCH 17/27] fix: translation coefficients ignored the permeability
 of the medium

---
 CasimirRio/translation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index e4fb086..c9e6dd0 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -51,7 +51,7 @@ class translation:
             self.trans_k0 = self.trans_k0_int
         if not (k == 0).any():
             self.bessels = bessel_sk.trans_bessels(self.k*self.L*
-                 np.sqrt(self.medium.epsilon(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
+                 np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
         self.forceFlag = forceFlag
         if self.forceFlag:
             self.get_vl1l2 = self.get_vl1l2_force
@@ -181,7 +181,7 @@ class translation:
         lppmax = l1+l2
         lpp = np.arange(abs(l1-l2), lppmax+1, 2)[np.newaxis, :]
         gaunt = self.gnt(l1, l2, self.m)
-        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)))[:, np.newaxis]
+        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
         sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
         sphB_gnt = sphB * gaunt
         sgn_ba = (-1)**lpp
-- 
2.43.0


From 9544891e039863b5b093d241f468ac19348abbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:35 +0000
Subject: [PATCH 18/27] fix: zero-frequency scattering at a plasma used only
 its first oscillator and ignored mu

---
 CasimirRio/scattering.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 511ba6b..b8c4cd9 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -9,6 +9,16 @@ from scipy.special import gammaln
 import bessel_sk
 from helper_functions import ln_2dbl, lfac
 
+def plasma_argument(mat, R):
+    """zero-frequency limit of the argument n(k)*k*R of the Bessel functions
+       inside of a material with free charge carriers (w_R = 0) of vanishing
+       dissipation (gamma = 0)
+
+    """
+    wP2 = sum([wP**2 for wP, wR, gamma in mat.e_properties
+                                        if wR == 0 and gamma == 0])
+    return np.sqrt(wP2*mat.mu(np.array([0])))*R/2.998e14
+
 class scattering:
     def __init__(self, mat1, mat2):
         """Mie scattering at a solid sphere of material mat1 which is 
@@ -59,11 +69,7 @@ class scattering:
         bTM = (l+1)/l
         if not self.mat1.is_perfect_conductor:
             mu0_sp = self.mat1.mu(k)
-            wPR_c = np.array([0])
-            try:
-                wPR_c = np.array([self.mat1.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            wPR_c = plasma_argument(self.mat1, R)
             if not self.mat1.is_sigma_finite:
                 ifraction = bessel_sk.i_fraction(wPR_c, l-0.5)[:, 0]
                 i_frac_term = (-l + wPR_c * ifraction)
@@ -232,10 +238,7 @@ class scattering:
         sgn = (-1)**(l)
         bTM = l/(l+1)
         if not self.mat2.is_perfect_conductor:
-            try:
-                wPR_c = np.array([self.mat2.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            wPR_c = plasma_argument(self.mat2, R)
             if not self.mat2.is_sigma_finite:
                 k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
                 k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
-- 
2.43.0


From 37ad0ad8fbe30c3bea7437674dd9d98afb6b9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:42 +0000
Subject: [PATCH 19/27] fix: invalid nprocs were accepted, and the
 unimplemented parallel evaluation raised NameError

---
 CasimirRio/thermodynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 6013bc5..498a4fa 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -27,7 +27,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         self.__version__ = "SVN Revision "+str("".join(list(filter(str.isdigit, 
                                                                 "$Revision: 952 $"))))
         self.deltaT = deltaT
-        if not type(nprocs) == int and nprocs >= 0:
+        if not (type(nprocs) == int and nprocs >= 0):
             raise ValueError("number of processes for parallelization must be positive \
                              but given was", nprocs)
         self.nprocs = nprocs
@@ -232,7 +232,7 @@ def slicewise_eval(func, nmin, nmax, stepsize=200):
         nmin = nmax_sl+1
     return result 
 
-def multiproc_silcewise_eval(func, nmin, nmax):
+def multiproc_slicewise_eval(func, nmin, nmax, stepsize=200):
     raise NotImplementedError("multiprocessing not yet implemented!")
 
 if __name__ == "__main__":
-- 
2.43.0


From da6735e76d644c690cd8e9db99f4328757ce1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:35 +0000
Subject: [PATCH 20/27] fix: the coated sphere-sphere geometry could not be
 evaluated

---
 CasimirRio/geometry.py       | 10 +++++++---
 CasimirRio/thermodynamics.py |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 3e13919..84c94b4 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -611,7 +611,7 @@ class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
                  mat2_core, mat2_coat, L, matMd, lmax, lssmax, forceFlag=0):
         SphereSphere.__init__(self, r1_a, r2_a, L, mat1_coat, mat2_coat,
-                               matMd, lmax, lssmax, forceFlag)
+                               matMd, lmax=lmax, lssmax=lssmax, forceFlag=forceFlag)
         self.r1_i = r1_i
         self.r2_i = r2_i
         self.r1_a = r1_a
@@ -638,11 +638,11 @@ class CoatedSphereSphere(SphereSphere):
         else:
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
-                ).mie_coated(k, self.lmax, self.r1_i,
+                ).mie_coated(k, 1, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
             self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
-                k, self.lssmax, self.r2_i, self.r2_a)
+                k, 1, self.lssmax, self.r2_i, self.r2_a)
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
                                   self.MieB[2][np.newaxis, :, np.newaxis,
@@ -668,6 +668,10 @@ class CoatedSphereSphere(SphereSphere):
             V.extend(Vdiff)
         return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
+    def roundTrip_elements_k0(self, m, k):
+        raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
+                                  " is not yet implemented for coated spheres")
+
 
 def dot_3d_matrices(a, b):
     """determine the matrix product of three-dimensional matrices a and b
diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 498a4fa..3ba07d5 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -32,7 +32,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                              but given was", nprocs)
         self.nprocs = nprocs
         self.analytic_n0 = analytic_n0
-        if type(geom.mat1) == list or type(geom.mat2) == list:
+        if (type(geom.mat1) == list or type(geom.mat2) == list
+            or isinstance(geom, geometry.CoatedSphereSphere)):
             self.analytic_n0 = False
         self.nmax = nmax# ??? Was ist wenn nmax<maxstep gewählt ist?
         self.Tmax = Tmax
-- 
2.43.0


From 99471b662e81f746a1cf25a77177f2eb0e52fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:13 +0000
Subject: [PATCH 21/27] fix: single round-trip sum honours mmax=0

---
 CasimirRio/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 84c94b4..ad69ebd 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -526,10 +526,12 @@ class SphereSphere:
                     for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
-            mmax = round(np.log(self.precision)/np.log(0.5))
+            mmax = max(1, round(np.log(self.precision)/np.log(0.5)))
         else:
             assert type(mmax)== int and mmax <= self.lmax            
         for m in range(1, self.lmax+1):
+            if m > mmax:
+                return TrM_matsubaras_m
             vorher = TrM_matsubaras_m.copy()
             A, B, C, D = self.blockmatrices(m, matsubaras)
             sh = np.shape(A)
-- 
2.43.0


From e94b27bfc7c8229cca5208d79b75da4cf22df3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:09 +0000
Subject: [PATCH 22/27] fix: plane-plane pressure is minus the distance
 derivative of the free energy

---
 CasimirRio/PFA.py     | 8 ++++----
 CasimirRio/raw_PFA.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index c80df46..c3329a1 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -41,8 +41,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def pressureRoundTrip(self, k_perp, kn, L):
@@ -54,8 +54,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE)+
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE)+
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index 7b4b382..dc74d1d 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -30,8 +30,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
-- 
2.43.0


From 75c4946a46ca6ac593eb7ad0e579b3ebf7a1d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:14 +0000
Subject: [PATCH 23/27] fix: a failed evaluation left coefficients of other
 frequencies in the cache

---
 CasimirRio/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index ad69ebd..eff5b07 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -126,6 +126,7 @@ class SphereSphere:
                 V.extend(Vdiff)
             return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
         else:
+            self.K = None
             if type(self.mat1)== list:
                 self.MieA = strat_scat(self.mat1, self.r1
                  ).mie_stratified(k, 1, self.lmax)[..., np.newaxis, np.newaxis]
@@ -638,6 +639,7 @@ class CoatedSphereSphere(SphereSphere):
         if np.shape(self.K) == np.shape(k) and (self.K == k).all():
             mieA, mieB = self.MieA, self.MieB
         else:
+            self.K = None
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
                 ).mie_coated(k, 1, self.lmax, self.r1_i,
-- 
2.43.0


From 6d53b3b2d3724a7584e72335ae415af11f14bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:20 +0000
Subject: [PATCH 24/27] fix: overwriting the layer lists after construction
 changed the geometry

---
 CasimirRio/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index eff5b07..ed8fc39 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -45,12 +45,13 @@ class SphereSphere:
                  forceFlag=0, evaluation="lndet"):
         self.__version__ = "SVN Revision "+str("".join(list(filter(str.isdigit, 
                                                                 "$Revision: 740 $"))))
-        self.r1 = r1
-        self.r2 = r2
+        # the layers of stratified spheres are copied: the lists belong to the caller
+        self.r1 = r1[:] if type(r1) == list else r1
+        self.r2 = r2[:] if type(r2) == list else r2
         self.L = L
         self.K = None
-        self.mat1 = mat1
-        self.mat2 = mat2
+        self.mat1 = mat1[:] if type(mat1) == list else mat1
+        self.mat2 = mat2[:] if type(mat2) == list else mat2
         self.mat3 = mat3
         self.lmax = lmax
         self.lssmax = lssmax
-- 
2.43.0


From 87d3a4995e2c3eb3ceeb04fb200a2a5f2002ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:43 +0000
Subject: [PATCH 25/27] fix: two jobs finishing at the same time could
 overwrite each other's result file

---
 CasimirRio/worker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 8ea775c..7e2161e 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -145,10 +145,13 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    while os.path.exists(foutput):
-        foutput += "1"
-    outfile = open(foutput, "w")
     comment = job_infos()
+    while True:
+        try: # "x" also fails if another job creates the file in the meantime
+            outfile = open(foutput, "x")
+            break
+        except FileExistsError:
+            foutput += "1"
     outfile.write(comment)
     outfile.close()
     outfile = open(foutput, "ab")
-- 
2.43.0


From 6912cf98d164e48a067a69451ed509fa40d4dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:18 +0000
Subject: [PATCH 26/27] fix: permeability of LorentzSmithMaterial for a whole
 wavenumber

---
 CasimirRio/materials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/materials.py b/CasimirRio/materials.py
index 47f0fbc..335bf66 100644
--- a/CasimirRio/materials.py
+++ b/CasimirRio/materials.py
@@ -152,10 +152,10 @@ class LorentzSmithMaterial(Material):
            [1] Guerot R. et. al. arXiv:1508.01659v1 [quant-ph] (2015)
 
         """
-        if type(k) == float:
-            mu = 1
-        else:
+        if type(k) == np.ndarray:
             mu = np.ones(k.shape)
+        else:
+            mu = 1
         if self.b_properties == ():
             return mu
         for params in [self.b_properties]:
-- 
2.43.0


From 9bcc2fffa4d86bc4643439a887711b7c4efc586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:25 +0000
Subject: [PATCH 27/27] fix: materials_converter.transform overwrote the list
 it was given and failed for tuples

---
 CasimirRio/materials_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/materials_converter.py b/CasimirRio/materials_converter.py
index ced384a..dc0dd17 100644
--- a/CasimirRio/materials_converter.py
+++ b/CasimirRio/materials_converter.py
@@ -10,7 +10,7 @@ def transform(params):
     eV = 1.60218e-19
     hbar = 1.05457e-34
     omega_eV = eV/hbar
-    t_params = params.copy()
+    t_params = [list(osciallator) for osciallator in params]
     for i, osciallator in enumerate(params):
         t_params[i][0] = sqrt(osciallator[0]*(osciallator[1]*omega_eV)**2)
         t_params[i][1] = osciallator[1]*omega_eV
-- 
2.43.0

