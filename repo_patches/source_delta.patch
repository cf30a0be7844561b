From 27cadaa7570b9fffaf5803d44f9a490e6c93e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 01/62] fix: swap order in inner-to-outer torque for a shift
 along +z

torque() with trans_type 'inner-outer' and a translation along +z applied the
regular-to-singular matrices without the m -> -m swap that every other
direction applies, so the torque about z came out wrong.
---
 newt/multipoleLib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index ab82681..bacbf8c 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -279,7 +279,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 q2Q = True
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
-            qnew = trr.apply_trans_mat_right(qnew, sms)
+            qnew = trr.apply_trans_mat_right(qnew, sms, q2Q)
             qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
         else:
             phi = np.arctan2(rvec[1], rvec[0])
-- 
2.43.0


From f3bf8da1d731c6254e412983edf0733d6aac161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 02/62] fix: rotate outer moments with the outer frame in
 torque()

For an outer-to-outer translation the outer moments were rotated to the
translation axis with the matrices of the inner moments, which is only right
when the translation lies in the xz plane (translationRecurs.translate_Qlmb
already uses the conjugate azimuths).
---
 newt/multipoleLib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index bacbf8c..1b330b3 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -291,6 +291,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 Ds2 = rot.wignerDl(minL, phi, -theta, phi)
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
+                Ds = rot.wignerDl(minL, phi, -theta, phi)
                 Ds2 = Ds
             # Translate and rotate in opposite order than applied to q
             qnew = rot.rotate_qlm_Ds_right(qnew, Ds2, True)
-- 
2.43.0


From 288b5d0c3f12c20653734f15aa10d31859e6928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 03/62] fix: power of r1 in q(5,0) of qlmACH.cone

The term 2*r1**2*r2 is dimensionally inconsistent; the closed form has
2*r1**3*r2.
---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 3103f95..5b4a5c1 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -210,7 +210,7 @@ def cone(LMax, rho, h, r1, r2):
     # q5 += 15*(5*r1**2*r2**4 + 6*r1*r2**5 + 7*r2**6)
     # qlm[5, L] = fac*h**2*q5*np.sqrt(11)/2688
     q5 = h**4 - 4*h**2*(3*r1**2 + r1*r2 + 3*r2**2)
-    q5 += 5*(3*r1**4 + 2*r1**2*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
+    q5 += 5*(3*r1**4 + 2*r1**3*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
     qlm[5, L] = fac*q5*h**2*(r1**2 - r2**2)*np.sqrt(11)/896
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
-- 
2.43.0


From 95f9a1c2214b8a2bd5ac45920c11785f0ba1b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 04/62] fix: coefficients in q(2,0) of qlmACH.cone2

The radius polynomial has unit coefficients; with the doubled and tripled ones
the moment of a plain cylinder is already wrong.
---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 5b4a5c1..1f55051 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -260,7 +260,7 @@ def cone2(LMax, rho, h, r1, r2):
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
     q20 = 2*h**2*(r1**2 + 3*r1*r2 + 6*r2**2)
-    q20 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + r1*r2**3 + r2**4)
+    q20 -= 3*(r1**4 + r1**3*r2 + r1**2*r2**2 + r1*r2**3 + r2**4)
     qlm[2, L] = fac*h*q20/(24*np.sqrt(5))
     q3 = 2*h**2*(r1**2 + 4*r1*r2 + 10*r2**2)
     q3 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + 4*r1*r2**3 + 5*r2**4)
-- 
2.43.0


From a48d495527be45cf4da1a43aed0b4c0793bd053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 05/62] fix: sign of the leading term in q(4,4) of
 qlmACH.trapezoid

---
 newt/qlmACH.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 1f55051..4a5c78a 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -439,7 +439,8 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     qlm[4, L+2] = q42
     q44 = 24*delw**3*w**2*h**2 + 3*delw**4*w**4
     q44 -= delw*(256*h**4 - 480*h**2*w**2)
-    q44 -= delw**2*w**2*(192*h**2-40*w**2) + 16*(48*h**4-40*h**2*w**2+3*w**4)
+    q44 -= delw**2*w**2*(192*h**2-40*w**2)
+    q44 += 16*(48*h**4-40*h**2*w**2+3*w**4)
     q44 *= q00*np.sqrt(7/10)/2048
     qlm[4, L+4] = q44
     q51 = 3*delw**5*w**4 - 42*delw**4*w**4
-- 
2.43.0


From 7179253f95659686a17fd63bcd64c308402bc73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 06/62] fix: q(2,2) of qlmACH.cylhole

The moment did not even have the dimension of a quadrupole; it now agrees
with qlmACH.cylhole2.
---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 4a5c78a..46ddb47 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -666,7 +666,7 @@ def cylhole(LMax, rho, r, R):
     Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
     qlm[0, L] = fac*r*Fc2
     qlm[2, L] = -fac*r*np.sqrt(5)/6*((r**2-2*R**2)*Fc2 + r**2*Fc3)
-    qlm[2, L+2] = fac*r*np.sqrt(15/2)*Fc2
+    qlm[2, L+2] = fac*r**3*np.sqrt(5/24)*(Fc3 - Fc2)
     q40 = (9*r**5-40*r**3*R**2+24*r*R**4)*Fc2 + (13*r**5-32*r**3*R**2)*Fc3
     q40 += 16*r**5*Fc4
     qlm[4, L] = fac/40*q40
-- 
2.43.0


From b8338c3b4ad51b408a3dc8ac59c4acf82d9c0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 07/62] fix: q(4,4) of qlmACH.cylhole

The moment did not even have the dimension of a hexadecapole; it now agrees
with qlmACH.cylhole2.
---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 46ddb47..7858a7c 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -672,7 +672,7 @@ def cylhole(LMax, rho, r, R):
     qlm[4, L] = fac/40*q40
     q42 = (6*r**2-20*R**2)*Fc2 + 2*(r**2+10*R**2)*Fc3 - 13*r**2*Fc4
     qlm[4, L+2] = fac*r**3*q42/(8*np.sqrt(10))
-    qlm[4, L+4] = 3*fac*r*np.sqrt(35/2)*Fc2/2
+    qlm[4, L+4] = fac*r**5*3/40*np.sqrt(35/2)*(Fc2 - 3*Fc3 + 2*Fc4)
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
     ms = np.arange(-L, L+1)
-- 
2.43.0


From 0cefb8d066f54da2ea11d9b42bc65a1566c46ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 08/62] fix: factor of H in Q(2,0) of bigQlm.annulus

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index bc18a14..7c366fd 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -106,7 +106,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q11 = np.log((r1+d1)/(r0+d0))
     Qlmb[1, L+1] = -dens*H*np.sqrt(3/(2*np.pi))*Q11*np.sin(phih)
     Q22 = 1/d1 - 1/d0
-    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q22
+    Qlmb[2, L] = dens*H*np.sqrt(5/(4*np.pi))*phih*Q22
     Q21 = r1/d1 - r0/d0 + np.log((r1*(r0+d0))/(r0*(r1+d1)))
     Qlmb[2, L+1] = -sH*dens*np.sqrt(5/(6*np.pi))*Q21*np.sin(phih)
     Q22 = H*(1/d0-1/d1) - 2*np.log((r0*(H+d1))/(r1*(H+d0)))
-- 
2.43.0


From 900093607e9672dee75fe33d9988497cc56315d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 09/62] fix: coefficient in Q(5,3) of bigQlm.annulus

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 7c366fd..8782022 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -141,7 +141,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q52 = 5/r1**3 + (4*H**4+14*H**2*r1**2-5*r1**4)/d1**7
     Q52 -= 5/r0**3 + (4*H**4+14*H**2*r0**2-5*r0**4)/d0**7
     Qlmb[5, L+2] = sH*dens*np.sqrt(11/(210*np.pi))/12*Q52*np.sin(2*phih)/2
-    Q53 = r1**5*(7*H**2+r1**2)/d1**7 - r0**5*(7*H**2+r0**2)/d0**7
+    Q53 = r1**5*(7*H**2+2*r1**2)/d1**7 - r0**5*(7*H**2+2*r0**2)/d0**7
     Qlmb[5, L+3] = dens*np.sqrt(11/(35*np.pi))/(16*H**3)*Q53*np.sin(3*phih)/3
     Q54 = 35/r0**3 - (8*H**4+28*H**2*r0**2+35*r0**4)/d0**7
     Q54 -= 35/r1**3 - (8*H**4+28*H**2*r1**2+35*r1**4)/d1**7
-- 
2.43.0


From 20517d017bd955fc4954ee8c0a32f83cf28853c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 10/62] fix: phase of outer moments for the orientation of
 bigQlm.annulus

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 8782022..08dc1db 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -152,7 +152,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-L, L+1)
-    Qlmb *= np.exp(-1j*ms*phic)
+    Qlmb *= np.exp(1j*ms*phic)
     mfac = (-1)**(np.abs(ms))
     Qlmb += np.conj(np.fliplr(Qlmb))*mfac
     Qlmb[:, L] /= 2
-- 
2.43.0


From 160977ef03ca5e2854e040d1ebaa9934babed35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 11/62] fix: rotation coefficients for monopole-only moments
 (LMax=0)

---
 newt/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/rotations.py b/newt/rotations.py
index e5ead66..7ffd77a 100644
--- a/newt/rotations.py
+++ b/newt/rotations.py
@@ -30,7 +30,7 @@ def rotate_H_recurs(p, beta, Hn_prev=None):
     https://arxiv.org/pdf/1403.7698v1.pdf
     """
     if p == 0:
-        return 1.0
+        return [np.ones([1, 1])]
     else:
         H = []
 
-- 
2.43.0


From 0477341a74af9da81ffb6946bae324419cb5f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 12/62] fix: single inner moments of arrays with a mass at the
 origin

---
 newt/pg2Multi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 76019c7..8179427 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -34,7 +34,8 @@ def qmoment(l, m, massArray):
     if l == 0:
         qlm = massArray[:, 0]/np.sqrt(4*np.pi)
     else:
-        qlm = massArray[:, 0]*r**l*np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm = np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm = massArray[rids, 0]*r[rids]**l*qlm
     qlm = np.sum(qlm)
     return qlm
 
@@ -99,7 +100,8 @@ def imoment(l, m, lmbd, massArray):
     if l == 0:
         ilm = massArray[:, 0]*il/np.sqrt(4*np.pi)
     else:
-        ilm = massArray[:, 0]*il*np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm = np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm = massArray[rids, 0]*il[rids]*ilm
     ilm = np.sum(ilm)
     return ilm
 
-- 
2.43.0


From 4b98ec049f7bb876dac49c10c9f76065cd235b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 13/62] fix: degree of the Bessel function in imoments

---
 newt/pg2Multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 8179427..9d86d41 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -224,7 +224,7 @@ def imoments(l, lmbd, massArray):
     ilms[0, l] = np.sum(ilm)
 
     for n in range(1, l+1):
-        il = sp.spherical_in(l, r/lmbd)
+        il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
             ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
             ilm *= massArray[rids, 0]*il[rids]
-- 
2.43.0


From e0fc9677d1f8f12c19c0d6e19223f2b99d9a3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 14/62] fix: do not alias the input moments for a null
 translation

---
 newt/translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translations.py b/newt/translations.py
index c943bbe..c5b8874 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -34,7 +34,7 @@ def translate_qlm(qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return qlm
+        return np.copy(qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
@@ -95,7 +95,7 @@ def translate_Qlmb(Qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return Qlm
+        return np.copy(Qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of Qlm for now
-- 
2.43.0


From c86070165462cff8a56792cf7da752f86e9b537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 15/62] fix: torques from inner and outer moments of different
 degree

---
 newt/multipoleLib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index 1b330b3..e867852 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -184,6 +184,8 @@ def torque_lm(qlm, Qlm, cnst=BIG_G):
     lqlm = len(qlm)
     lQlm = len(Qlm)
     minL = min([lqlm, lQlm])-1
+    qlm = embed_qlm(qlm, minL)
+    Qlm = embed_qlm(Qlm, minL)
 
     ls = np.arange(minL+1)
     lfac = 1/(2*ls+1)
@@ -245,8 +247,8 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
         DsR = rot.wignerDl(minL, alpha, beta, gamma)
     else:
         DsR = rot.wignerDl(minL, -alpha, beta, -gamma)
-    qnew = np.copy(qlm)
-    Qnew = np.copy(Qlm)
+    qnew = embed_qlm(qlm, minL)
+    Qnew = embed_qlm(Qlm, minL)
     r = np.sqrt(rvec[0]**2 + rvec[1]**2 + rvec[2]**2)
     if trans_type == 'inner-inner':
         Qnew *= np.outer(lfac, ms)
-- 
2.43.0


From b9ec847a4ca9b7a45543b880203af0227d5aaea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 16/62] fix: force basis at the origin for L=0

---
 newt/multipoleLib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index e867852..51b4c03 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -23,9 +23,10 @@ def force_basis(L, x, y, z):
     bZ = np.zeros([L+1, 2*L+1], dtype='complex')
 
     if (x == 0) and (y == 0) and (z == 0):
-        bZ[1, L] = 1
-        bX[1, L+1] = -1/2
-        bY[1, L+1] = 1j/2
+        if L > 0:
+            bZ[1, L] = 1
+            bX[1, L+1] = -1/2
+            bY[1, L+1] = 1j/2
     else:
         ytilC[0, L] = 1
         r2 = x**2 + y**2 + z**2
-- 
2.43.0


From 4d29e0bc215a0c0ec3bbc47674e96256b0d55812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 17/62] fix: centre the y grid of glibShapes.rectangle with ny

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d63c9bd..3b0deea 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -134,7 +134,7 @@ def rectangle(mass, x, y, z, nx, ny, nz):
         for l in range(ny):
             for m in range(nx):
                 pointArray[k*ny*nx+l*nx+m, 1] = (m-(nx-1)/2)*xgrid
-                pointArray[k*ny*nx+l*nx+m, 2] = (l-(nx-1)/2)*ygrid
+                pointArray[k*ny*nx+l*nx+m, 2] = (l-(ny-1)/2)*ygrid
                 pointArray[k*ny*nx+l*nx+m, 3] = (k-(nz-1)/2)*zgrid
 
     return pointArray
-- 
2.43.0


From d8c6a9c0e380f1c99a110f12693037176de932da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 18/62] fix: centre of the y grid in glibShapes.tri_prism and
 tetrahedron

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 3b0deea..491eb81 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -524,7 +524,7 @@ def tri_prism(mass, d, y1, y2, t, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = t/nz
     xgrid = d/nx
     ygrid = base/ny
@@ -584,7 +584,7 @@ def tetrahedron(mass, x, y1, y2, z, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = z/nz
     xgrid = x/nx
     ygrid = base/ny
-- 
2.43.0


From f1f24639cb821f766905bb6036c07652f841112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 19/62] fix: extent of the grid in glibShapes.sphere

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 491eb81..31f2eb6 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -76,7 +76,7 @@ def sphere(mass, R, N):
     """
     pointArray = np.zeros([N**3, 4])
     pointArray[:, 0] = mass/N**3
-    grid = R/N
+    grid = 2*R/N
 
     ctr = 0
     for k in range(N):
-- 
2.43.0


From 056ca47b7432ee8c4fb16d7cc082fe9134d2f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 20/62] fix: x and y are half-lengths in glibShapes.pyramid

---
 newt/glibShapes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 31f2eb6..c61c439 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -706,8 +706,8 @@ def pyramid(mass, x, y, z, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     zgrid = z/nz
-    xgrid = x/nx
-    ygrid = y/ny
+    xgrid = 2*x/nx
+    ygrid = 2*y/ny
     print(xgrid, ygrid)
 
     density = mass/(z*y*x/3)
@@ -724,8 +724,8 @@ def pyramid(mass, x, y, z, nx, ny, nz):
                 zval = (k-(nz-1)/2)*zgrid + z/2
                 yx = yval*x/2
                 xy = xval*y/2
-                xr = 2*xval/x
-                yr = 2*yval/y
+                xr = xval/x
+                yr = yval/y
                 # upper quad
                 if (xy <= yx) and (xy >= -yx) and (zval <= z*(1-yr)):
                     pointArray[ctr, 1:] = xval, yval, zval
-- 
2.43.0


From 582c754f354b6dc56258ea0be8df6957c6f21f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 21/62] fix: section and extent of the tilted hole in
 glibShapes.platehole

---
 newt/glibShapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index c61c439..d35df7d 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -835,7 +835,8 @@ def platehole(mass, t, r, theta, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     s = np.tan(theta)
-    x = 2*(r + t*s/2)
+    c = np.cos(theta)
+    x = r/c + t*np.abs(s)/2
     zgrid = t/nz
     xgrid = 2*x/nx
     ygrid = 2*r/ny
@@ -854,7 +855,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
                 y = (l-(ny-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 xz = z*s
-                if (y**2 + (x-xz)**2) <= r**2:
+                if (y**2 + ((x-xz)*c)**2) <= r**2:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From dd0b90edd57454e28a9d61757f01f4477805b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 22/62] fix: use dz nodes along z in gShapeGL annulus, cone and
 wedge

---
 newt/gShapeGL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index f50f68a..46aeb59 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -129,7 +129,7 @@ def annulus(mass, iR, oR, t, dd, dz):
     pointArray = np.zeros([dz*dd**2, 4])
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
@@ -174,7 +174,7 @@ def cone(mass, R, H, dd, dz):
     tanTheta = H/R
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
@@ -230,7 +230,7 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
     ctr = 0
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
-- 
2.43.0


From e5baeee9f53a93f3461a592b79ffaefd0ed02175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 23/62] fix: thickness of gShapeGL annulus and wedge

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 46aeb59..b58a793 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -135,7 +135,7 @@ def annulus(mass, iR, oR, t, dd, dz):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*oR
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*oR
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
@@ -236,7 +236,7 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
             for m in range(dd):
                 x = sx[m]*dx + xa
                 y = sy[l]*ymax
-                z = sz[k]*t
+                z = sz[k]*t/2
                 w = wx[m]*wy[l]*wz[k]
                 r = np.sqrt(x**2 + y**2)
                 q = np.arctan2(y, x)
-- 
2.43.0


From 45d7bc1c8d16db4ef7b79ae462740ae453d75d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 24/62] fix: gShapeGL.cone filled a double cone of height 2H

---
 newt/gShapeGL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index b58a793..63d22c0 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -180,7 +180,7 @@ def cone(mass, R, H, dd, dz):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*R
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*R
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H
+                pointArray[k*dd*dd+l*dd+m, 3] = (sz[k]+1)*H/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
-- 
2.43.0


From c141060b06c5129b83a4f9e10156e99df619c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 25/62] fix: y extent of gShapeGL.tri_prism

---
 newt/gShapeGL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 63d22c0..c39fe6b 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -294,7 +294,7 @@ def tri_prism(mass, d, y1, y2, t, dx, dy, dz):
         for l in range(dy):
             for m in range(dx):
                 pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*d/2 + d/2
-                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base/2 + yave
+                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base + yave
                 pointArray[k*dy*dx+l*dx+m, 3] = sz[k]*t/2
                 pointArray[k*dy*dx+l*dx+m, 0] = wx[m]*wy[l]*wz[k]
 
-- 
2.43.0


From 2d6ee82f346f5ef082de4a0cc74efa82a115a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 26/62] fix: side length of the CAD regular prism

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index d35bb2a..84b42b8 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -312,7 +312,7 @@ def ngon_prism(pmass, H, a, phic, N):
     """
     ang = 2*np.pi/N
     R = a/np.sqrt(2*(1-np.cos(ang)))
-    result = cq.Workplane("XY").polygon(N, R).extrude(H/2, both=True)
+    result = cq.Workplane("XY").polygon(N, 2*R).extrude(H/2, both=True)
     result.pmass = pmass
     result = rotate_mesh(result, ang/2, 0, 0)
     return result
-- 
2.43.0


From 1f8b04286f92d7a459b7c2100eae76ab91db97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 27/62] fix: orientation of the CAD regular prism ignored phic

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 84b42b8..c3262c1 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -314,7 +314,7 @@ def ngon_prism(pmass, H, a, phic, N):
     R = a/np.sqrt(2*(1-np.cos(ang)))
     result = cq.Workplane("XY").polygon(N, 2*R).extrude(H/2, both=True)
     result.pmass = pmass
-    result = rotate_mesh(result, ang/2, 0, 0)
+    result = rotate_mesh(result, phic + ang/2, 0, 0)
     return result
 
 
-- 
2.43.0


From 37f07269d82f9c18ca327519745c15a833df4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 28/62] fix: order of the Euler rotations of a CAD mesh

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index c3262c1..be4650a 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -570,9 +570,9 @@ def rotate_mesh(mesh, alpha, beta, gamma):
     result: CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
+    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
     result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
-    result = result.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
+    result = result.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
     result.pmass = pmass
     return result
 
-- 
2.43.0


From e4f66236272935d9dbc8854a50e1e2333c2d1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 29/62] fix: x and y are half-lengths in the CAD pyramid

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index be4650a..69ed003 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -422,7 +422,7 @@ def pyramid(pmass, x, y, z):
     -------
     result : CadQuery object
     """
-    vertices = [[x/2,y/2,0], [x/2,-y/2,0], [-x/2,-y/2,0], [-x/2,y/2,0], [0,0,z]]
+    vertices = [[x,y,0], [x,-y,0], [-x,-y,0], [-x,y,0], [0,0,z]]
     faces_ixs = [[0,1,2,3,0], [0,1,4,0], [1,2,4,1], [2,3,4,2], [3,0,4,3]]
 
     faces = []
-- 
2.43.0


From 9b61b56f3b5380a197337d99a707496aedbbe240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 30/62] fix: swapped height and radius in the CAD cylinder hole

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 69ed003..a112e58 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -457,8 +457,8 @@ def cylhole(pmass, r, R):
     -------
     result : CadQuery object
     """
-    mr = cylinder(0, r, 2*R)
-    mR = cylinder(0, R, 2*r)
+    mr = cylinder(0, 2*R, r)
+    mR = cylinder(0, 2*r, R)
     mR = mR.rotate((0,0,0), (1,0,0), 90)
     result = mr.intersect(mR)
     result.pmass = pmass
-- 
2.43.0


From 25a5144a8d7a79252c16b19ff3d80ec290beb227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 31/62] fix: extent of the plate and hole in the CAD plate hole

---
 newt/genCAD.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index a112e58..532872f 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -492,8 +492,9 @@ def platehole(pmass, t, r, theta):
     qlm : ndarray
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
-    rect = rect_prism(pmass, t, 2*r+2*t*np.sin(theta), 2*r + 2*t*np.sin(theta), 0)
-    cyl = cylinder(0, 2*t, r)
+    c, s = np.cos(theta), np.abs(np.sin(theta))
+    rect = rect_prism(pmass, t, 3*(r/c + t*s/c/2), 3*r, 0)
+    cyl = cylinder(0, 3*(t/c/2 + r*s/c), r)
     cyl = rotate_mesh(cyl, 0, theta, 0)
     result = rect.intersect(cyl)
     result.pmass = pmass
-- 
2.43.0


From 5b8743a6d2efcbf6f5048c1c7b282fe847ae307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 32/62] fix: axes of the CAD trapezoid

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 532872f..6b7f3cc 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -273,7 +273,7 @@ def trapezoid(pmass, t, w1, w2, h):
     -------
     result : CadQuery object
     """
-    result = (cq.Workplane("XY")
+    result = (cq.Workplane("YZ")
         .rect(w1, t)
         .workplane(offset=h)
         .rect(w2, t)
-- 
2.43.0


From e04423fe2ffd7d17e5b4dcf7edf881657a4fc9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 33/62] fix: section and orientation of the CAD outer cone

---
 newt/genCAD.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 6b7f3cc..294ed81 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -526,8 +526,9 @@ def outercone(pmass, H, IR, OR, phih):
         raise ValueError('IR must be greater than 0.')
     else:
         result = (cq.Workplane("XZ")
-            .lineTo(OR,0).lineTo(IR,H).lineTo(IR,0)
+            .moveTo(OR,0).lineTo(IR,H).lineTo(IR,0)
             .close().revolve(2*phih*180/np.pi,(0,0,0),(0,1,0))
+            .rotate((0,0,0), (0,0,1), -phih*180/np.pi)
         )
     result.pmass = pmass
     return result
-- 
2.43.0


From 1d27066cabb0c3ec4f08a218d5ba7956cfdbb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 34/62] fix: exporting a single CAD mesh to stl

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 294ed81..81edf1f 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -604,7 +604,7 @@ def save_stl(mesh, name):
     -------
     None. Outputs file
     """
-    if hasattr(mesh, '__iter__'):
+    if isinstance(mesh, (list, tuple)):
         tmpmesh = sum_mesh(mesh)
         cq.exporters.export(tmpmesh, f"{name}.stl",tolerance=.01)
 
-- 
2.43.0


From 0814d9323baf1966524ec0a1ed64c5be629fabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 35/62] fix: density of the outer Annulus shape

---
 newt/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4f0dd43..13061a1 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -138,7 +138,7 @@ class Annulus(Shape):
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
-            dens = mass/(2*phih*(Ro**2 - Ri**2)*H)
+            dens = mass/(phih*(Ro**2 - Ri**2)*H)
             self.qlm = bqlm.annulus(lmax, dens, H/2, Ri, Ro, phic, phih)
             self.qlm += bqlm.annulus(lmax, dens, -H/2, Ri, Ro, phic, phih)
 
-- 
2.43.0


From a6278dcd68712e01bf5e50ca3e05fa26210f77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 36/62] fix: keep the moments of the outer Sphere shape

---
 newt/shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 13061a1..922f723 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -198,7 +198,9 @@ class Sphere(Shape):
             self.translate(center, True)
         else:
             dens = mass/(4*np.pi*R**3/3)
-            bqlm.sphere(lmax, dens, R, center[0], center[1], center[2])
+            self.qlm = bqlm.sphere(lmax, dens, R, *center)
+            self.com += center
+            self.mesh = gcad.translate_mesh(self.mesh, center)
 
 
 class NGon(Shape):
-- 
2.43.0


From 3f76e0682967629f1ef50a1c848af794e37152cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 37/62] fix: keep the moments of the OuterCone shape and its
 density

---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 922f723..0354669 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -256,8 +256,8 @@ class OuterCone(Shape):
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-            dens = mass/(2*phih*H*(OR**2-IR**2)/3)
-            bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
+            dens = mass/(phih*H*(OR**2 + OR*IR - 2*IR**2)/3)
+            self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
 class Cylhole(Shape):
-- 
2.43.0


From 335d802df56ba6be40329965c0e5beaf96b671b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 38/62] fix: sign of the mass in the mesh of the OuterCone
 shape

---
 newt/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 0354669..624c85e 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -252,7 +252,7 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.outercone(mass, H, IR, OR, phih)
+        self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-- 
2.43.0


From 6404f3705d0fc772db51664615de02311d6d1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 39/62] fix: normalisation of the Cylhole and Platehole shapes

---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 624c85e..fda7671 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -271,7 +271,7 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer cylindrical hole shape not defined.')
 
@@ -287,6 +287,6 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From 794ba36df50489bf79e62c2ae5e502c846f1b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 40/62] fix: orientation of the Platehole shape

---
 newt/shapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index fda7671..6ca18ef 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -287,6 +287,8 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
+            # Moments have the hole along z, mesh has the plate on xy-plane
+            self.qlm = rot.rotate_qlm(self.qlm, 0, theta, 0)
             self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From dd2bc368da74ebfd89d8b6ed51ec2d47420469eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 41/62] fix: a rejected Shape translation leaves the shape
 unchanged

---
 newt/shapes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 6ca18ef..7d46be2 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -67,17 +67,17 @@ class Shape:
         self.com = rotcom[1:4]
 
     def translate(self, tvec, to_inner):
-        self.com += tvec
+        if not self.inner and to_inner:
+            raise ValueError('Outer to inner translations not allowed.')
+        self.com = self.com + tvec
         self.mesh = gcad.translate_mesh(self.mesh, tvec)
         if self.inner and to_inner:
             self.qlm = trs.translate_qlm(self.qlm, tvec)
         elif self.inner and not to_inner:
             self.inner = False
             self.qlm = trs.translate_q2Q(self.qlm, tvec)
-        elif not self.inner and not to_inner:
-            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
         else:
-            raise ValueError('Outer to inner translations not allowed.')
+            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
 
     def add(self, shapes):
         """
-- 
2.43.0


From fced28ec51b86c8b73c815f81608d10ce3a10119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 42/62] fix: centre of mass of the shapes not centred on the
 origin

---
 newt/shapes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index 7d46be2..1a157eb 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -135,6 +135,8 @@ class Annulus(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.annulus(mass > 0, H, Ri, Ro, phic, phih)
+        rcom = 2*(Ro**2 + Ro*Ri + Ri**2)/(Ro + Ri)/3*np.sin(phih)/phih
+        self.com = np.array([rcom*np.cos(phic), rcom*np.sin(phic), 0])
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
@@ -165,6 +167,7 @@ class TriPrism(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tri_prism(mass > 0, H, d, y1, y2)
+        self.com = np.array([2*d/3, (y1+y2)/3, 0])
         if self.inner:
             self.qlm = qlm.tri_prism(lmax, mass, H, d, y1, y2)
         else:
@@ -179,6 +182,8 @@ class Cone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.cone(mass > 0, P, 0, R, phic, phih)
+        rcom = R*np.sin(phih)/phih/2
+        self.com = np.array([rcom*np.cos(phic), rcom*np.sin(phic), P/4])
         if self.inner:
             self.qlm = qlm.cone(lmax, mass, P, R, phic, phih)
         else:
@@ -225,6 +230,7 @@ class Tetrahedron(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tetrahedron2(mass > 0, x, y1, y2, z)
+        self.com = np.array([x/2, (y1+y2)/4, z/4])
         if self.inner:
             self.qlm = qlm.tetrahedron2(lmax, mass, x, y1, y2, z)
         else:
@@ -239,6 +245,7 @@ class Pyramid(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.pyramid(mass > 0, x, y, z)
+        self.com = np.array([0, 0, z/4])
         if self.inner:
             self.qlm = qlm.pyramid(lmax, mass, x, y, z)
         else:
@@ -253,6 +260,10 @@ class OuterCone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
+        vol = OR**2 + OR*IR - 2*IR**2
+        rcom = (OR**3 + OR**2*IR + OR*IR**2 - 3*IR**3)/vol/2*np.sin(phih)/phih
+        zcom = H*(OR**2 + 2*OR*IR - 3*IR**2)/vol/4
+        self.com = np.array([rcom, 0, zcom])
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-- 
2.43.0


From 8c1697fb5a6f671f2327b31cdf54faedacd9f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 43/62] fix: comments on the parameter lines of .mpc files

---
 newt/read_multiFor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 31c8be9..4daa2f8 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -137,13 +137,13 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     # Assume units are centimeters unless told otherwise
     fac = 1e-2
     nlines = len(lines[1:])
+    # Get rid of stuff after a comment
+    lines = [line.split('%')[0] for line in lines]
     qlmTot = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     k = 0
     while k < nlines:
         line = lines[1+k]
-        # Get rid of stuff after a comment
-        line = line.split('%')[0]
         if 'create' in line:
             print(line)
             shape = line.split('create')[1].split()[0]
-- 
2.43.0


From 4b773eb7da387ce97a43724515074e4fa1c05662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 44/62] fix: .mpc files that stop after the position of a shape

---
 newt/read_multiFor.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 4daa2f8..5010650 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -159,7 +159,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.annulus(LMax, mass, H, Ri, Ro, phic, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -174,7 +174,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.sphere(LMax, mass, r)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -190,7 +190,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -205,7 +205,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -236,7 +236,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -254,7 +254,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, 0, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -269,7 +269,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tetrahedron(LMax, mass, x, y, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -287,7 +287,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 # qlmWrk = rot.rotate_qlm(qlmWrk, 0, theta, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -302,7 +302,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = rot.rotate_qlm(qlmWrk, np.pi/2, 0, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -317,7 +317,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.pyramid(LMax, mass, x/2, y/2, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -332,7 +332,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.rect_prism(LMax, mass, z, x, y, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
-- 
2.43.0


From 3ccc0a646b906f0f2c63efc135ba064091bf109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 45/62] fix: .mpc commands on the empty working register

---
 newt/read_multiFor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 5010650..c236c1a 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -141,6 +141,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     lines = [line.split('%')[0] for line in lines]
     qlmTot = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
+    shape = 'Working'
     k = 0
     while k < nlines:
         line = lines[1+k]
-- 
2.43.0


From ce64785ac9a028f70ae65ebae064adf09e61fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 46/62] fix: upper radius of cones in .mpc files was ignored

---
 newt/read_multiFor.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index c236c1a..75c3fc3 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -186,9 +186,24 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*np.pi*H*LR**2/3
+                mass = dens*np.pi*H*(LR**2 + LR*UR + UR**2)/3
                 print(LR, UR, H, dens, mass)
-                qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
+                if LR == UR:
+                    qlmWrk = qlm.cylinder(LMax, mass, H, LR)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H/2])
+                else:
+                    # Remove the tip of a full cone
+                    Rb, Rs = max(LR, UR), min(LR, UR)
+                    Hb, Hs = H*Rb/(Rb-Rs), H*Rs/(Rb-Rs)
+                    massb = dens*np.pi*Hb*Rb**2/3
+                    qlmWrk = qlm.cone(LMax, massb, Hb, Rb, 0, np.pi)
+                    if Rs > 0:
+                        masss = dens*np.pi*Hs*Rs**2/3
+                        tip = qlm.cone(LMax, masss, Hs, Rs, 0, np.pi)
+                        qlmWrk -= trs.translate_qlm(tip, [0, 0, H])
+                    if LR < UR:
+                        qlmWrk = rot.rotate_qlm(qlmWrk, 0, np.pi, 0)
+                        qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
-- 
2.43.0


From 9bb35a0ac22e4089385bac4b3807f9307f4ed0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 47/62] fix: .mpc trapezoids with equal sides or a vanishing
 side

---
 newt/read_multiFor.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 75c3fc3..730d2a2 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -239,14 +239,19 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     flip = False
                 dens = float(lines[3+k].split(',')[0])*1000
                 y1, y2 = w3/2, w4/2
-                hs = w3*h/(w4-w3)
-                hb = h + hs
-                massTrib = dens*t*w4*hb/2
-                massTris = dens*t*w3*hs/2
-                print(hs, hb, w3, w4)
-                qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
-                qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
-                qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
+                if w3 == w4:
+                    qlmWrk = qlm.rect_prism(LMax, dens*t*w3*h, t, h, w3, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [h/2, 0, 0])
+                else:
+                    hs = w3*h/(w4-w3)
+                    hb = h + hs
+                    massTrib = dens*t*w4*hb/2
+                    massTris = dens*t*w3*hs/2
+                    print(hs, hb, w3, w4)
+                    qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
+                    if w3 > 0:
+                        qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
                 if flip:
                     qlmWrk = trs.translate_qlm(qlmWrk, [-(hb-hs), 0, 0])
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
-- 
2.43.0


From e78e6fe4b54b65f1010e32ea2cb20d87a7c8bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 48/62] fix: start position of genPointMassLine was ignored

---
 matlab-src/shapes/genPointMassLine.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/shapes/genPointMassLine.m b/matlab-src/shapes/genPointMassLine.m
index fc1c07f..0802f84 100644
--- a/matlab-src/shapes/genPointMassLine.m
+++ b/matlab-src/shapes/genPointMassLine.m
@@ -17,7 +17,7 @@ function  o = genPointMassLine( eachMass, x, y, zstart, zspace, N)
 
         o = ones(N,4);
 
-	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, (0: (N- 1) )' * zspace];
+	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, zstart + (0: (N- 1) )' * zspace];
 
 
 end
-- 
2.43.0


From d66d82449d175cbd307ee5a9384a09d036276875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 49/62] fix: scatterPMMassesYZGrid scattered x and y instead of
 y and z

---
 matlab-src/scatterPMMassesYZGrid.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/scatterPMMassesYZGrid.m b/matlab-src/scatterPMMassesYZGrid.m
index c8069fe..5025cf0 100644
--- a/matlab-src/scatterPMMassesYZGrid.m
+++ b/matlab-src/scatterPMMassesYZGrid.m
@@ -21,6 +21,6 @@ function M = scatterPMMassesYZGrid(M);
 
 	R = pendulumPMScanGridSize * randn(rows(M), 2);
 
-	M(:,2:3) = M(:,2:3) + R;
+	M(:,3:4) = M(:,3:4) + R;
 
 end
-- 
2.43.0


From d98f78d9bf1909a98c64538fa5779a65c6831cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 50/62] fix: polar angle of computeMoments was measured from -z

---
 matlab-src/computeMoments.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/computeMoments.m b/matlab-src/computeMoments.m
index e875433..e039f11 100644
--- a/matlab-src/computeMoments.m
+++ b/matlab-src/computeMoments.m
@@ -47,7 +47,7 @@ function moment = computeMoments( l, m, mArray )
 				end
 			%main case
 			else
-				theta = atan( z / rxy ) + pi / 2.0;
+				theta = pi / 2.0 - atan( z / rxy );
 			end
 
 			%Phi computation
-- 
2.43.0


From d4711c6a68f496b856b78bce414c6817969a7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 51/62] fix: axis of the large cylinder in glibShapes.cylhole

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d35df7d..234f19a 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -793,8 +793,8 @@ def cylhole(mass, r, R, nx, nz):
                 y = (l-(nx-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 rz = np.sqrt(x**2 + y**2)
-                rx = np.sqrt(y**2 + z**2)
-                if rz <= r and rx <= R:
+                ry = np.sqrt(x**2 + z**2)
+                if rz <= r and ry <= R:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From 48a99c0de3c61f2012c4199325bd8a3599aa930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 52/62] fix: axis of the large cylinder in the Cylhole shape
 moments

---
 newt/shapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index 1a157eb..3bc0c40 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -282,6 +282,8 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
+            # Moments have the large cylinder along x, mesh has it along y
+            self.qlm = rot.rotate_qlm(self.qlm, np.pi/2, 0, 0)
             self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer cylindrical hole shape not defined.')
-- 
2.43.0


From b594604f7bffe0f22bc1e2de651e552a5387215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 53/62] fix: tables of moments of arrays with a mass at the
 origin

---
 newt/pg2Multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 9d86d41..2882f55 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -137,7 +137,7 @@ def qmoments(l, massArray):
     for n in range(1, l+1):
         rl = r**n
         for m in range(n+1):
-            qlm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
             qlm *= massArray[rids, 0]*rl[rids]
             qlms[n, l+m] = np.sum(qlm)
 
@@ -226,7 +226,7 @@ def imoments(l, lmbd, massArray):
     for n in range(1, l+1):
         il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
-            ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
             ilms[n, l+m] = np.sum(ilm)
 
-- 
2.43.0


From 6b07a68beee2ac27d2d22e017d2e294776387822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 54/62] fix: sign of inner to outer coaxial translations along
 -z

---
 newt/translationRecurs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 0153d9b..14d9c5a 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -219,7 +219,7 @@ def transl_newt_z_SR(LMax, dr):
     http://legacydirs.umiacs.umd.edu/~gumerov/PDFs/cs-tr-4701.pdf
     """
     lp = np.arange(2*LMax+1)
-    svals = np.sign(dr)**(lp+1)*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
+    svals = np.sign(dr)**lp*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
     srms = []
     for m in range(LMax+1):
         faca = alphanm(lp[m:LMax+1], m)
-- 
2.43.0


From 6782ba5fd9e8f68ce248829d92d8ec151ac06570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 55/62] fix: rotation of the outer moments of shapes

---
 newt/shapes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 3bc0c40..d2bc5bd 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -56,7 +56,11 @@ class Shape:
         np.savetxt(filename+'.txt', self.qlm, header=header)
 
     def rotate(self, alpha, beta, gamma):
-        self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        if self.inner:
+            self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        else:
+            # Outer moments go as Y_lm rather than its conjugate
+            self.qlm = rot.rotate_qlm(self.qlm, -alpha, beta, -gamma)
         self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
 
         # Rotate center of mass using point-gravity tools
-- 
2.43.0


From 5ba7806c24f115bf9f7226ff54bb9a0d6486183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 56/62] fix: translation of CAD bodies by arrays

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 81edf1f..e6f6f0b 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -547,7 +547,7 @@ def translate_mesh(mesh, rPrime):
     newresult : CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.translate(rPrime)
+    result = mesh.translate(tuple(rPrime))
     result.pmass = pmass
     return result
 
-- 
2.43.0


From a4c0ba95f5c9971dca0beb946f056b556562ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 57/62] fix: unknown shape as the last one of a .mpc file

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 730d2a2..4bd3b58 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -362,7 +362,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = trs.translate_qlm(qlmWrk, pos)
             else:
                 print(shape, ' does not have a known set of moments')
-                for n in range(nlines-k):
+                for n in range(nlines-k-1):
                     line2 = lines[1+k+1]
                     if ('create' not in line2) and ('end' not in line2):
                         k += 1
-- 
2.43.0


From 12d129c6de497992cbe77fa516393da03dd79180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 58/62] fix: unphysical dimensions accepted by moment routines

---
 newt/bigQlm.py    |  4 +++-
 newt/bigQlmNum.py |  7 +++++--
 newt/qlm.py       |  4 ++--
 newt/qlmACH.py    | 10 +++++++---
 newt/qlmNum.py    | 12 ++++++++----
 5 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 08dc1db..09e5267 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -34,6 +34,8 @@ def sphere(LMax, dens, R, x, y, z):
     Qlmb : ndarray
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
+    if (R <= 0):
+        raise ValueError('Unphysical parameter arguments')
     M = dens*(4*np.pi*R**3)/3
     Qlmsb = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     d = np.sqrt(x**2 + y**2 + z**2)
@@ -93,7 +95,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     else:
         L = LMax
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H == 0) or (r1 < r0) or (r1 < 0) or (r0 < 0) or (phih <= 0) or (phih > np.pi):
+    if (H == 0) or (r1 < r0) or (r1 < 0) or (r0 <= 0) or (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     d1 = np.sqrt(H**2 + r1**2)
     d0 = np.sqrt(H**2 + r0**2)
diff --git a/newt/bigQlmNum.py b/newt/bigQlmNum.py
index 976ef52..6c406c4 100644
--- a/newt/bigQlmNum.py
+++ b/newt/bigQlmNum.py
@@ -66,7 +66,7 @@ def annulus(L, dens, h1, h2, IR, OR, phih):
     if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     # Make sure this solid doesn't reach the origin
-    if (h1 <= 0 <= h2) and (IR <= 0):
+    if ((h1 <= 0 <= h2) and (IR <= 0)) or (IR < 0):
         raise ValueError('Unphysical parameter arguments')
     for l in range(L+1):
         for m in range(l+1):
@@ -119,6 +119,9 @@ def outer_cone(L, dens, H, IR, OR, phih):
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
     if (H <= 0) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
+    # Make sure this solid doesn't reach the origin
+    if (IR <= 0):
+        raise ValueError('Unphysical parameter arguments')
 
     def cone_z(theta, r):
         """Boundary integral for z coordinate of cone"""
@@ -178,7 +181,7 @@ def trapezoid(L, dens, h1, h2, IR, OR, phih):
     if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0):
         raise ValueError('Unphysical parameter arguments')
     # Make sure this solid doesn't reach the origin
-    if ((h1 <= 0 <= h2) and (IR <= 0)) or (phih >= np.pi/2):
+    if ((h1 <= 0 <= h2) and (IR <= 0)) or (phih >= np.pi/2) or (IR < 0):
         raise ValueError('Unphysical parameter arguments')
 
     def trap_or(theta):
diff --git a/newt/qlm.py b/newt/qlm.py
index 3472213..00ef7a0 100644
--- a/newt/qlm.py
+++ b/newt/qlm.py
@@ -105,7 +105,7 @@ def annulus(L, mass, H, Ri, Ro, phic, phih):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (Ro < Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
+    if (H <= 0) or (Ro <= Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
         raise ValueError('Unphysical parameter arguments')
     rfac = Ro**2 - Ri**2
     for l in range(L+1):
@@ -462,7 +462,7 @@ def ngon_prism(L, mass, H, a, phic, N):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (a <= 0) or (N <= 0):
+    if (H <= 0) or (a <= 0) or (N < 3):
         raise ValueError('Unphysical parameter arguments')
     tanN = np.tan(np.pi/N)
     for l in range(L+1):
diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 7858a7c..1961100 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -98,7 +98,7 @@ def annulus(LMax, rho, H, Ri, Ro, phic, phih):
     dr = Ro-Ri
     r = (Ro+Ri)/2
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (Ro <= Ri) or (Ro <= 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
+    if (Ro <= Ri) or (Ri < 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
         raise ValueError('Unphysical parameter arguments')
     eiphi = np.exp(-1j*phic)
     sdphih = np.sin(dphi/2)
@@ -178,6 +178,8 @@ def cone(LMax, rho, h, r1, r2):
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
     if (h <= 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
+    if (r1 < 0) or (r2 < 0):
+        raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     # qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
@@ -256,6 +258,8 @@ def cone2(LMax, rho, h, r1, r2):
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
     if (h <= 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
+    if (r1 < 0) or (r2 < 0):
+        raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
@@ -407,7 +411,7 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0):
+    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0) or (w1+w2 == 0):
         raise ValueError('Unphysical parameter arguments')
     w = (w1+w2)/2
     delw = (w1-w2)/w
@@ -783,7 +787,7 @@ def platehole(LMax, rho, t, r, theta):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (t <= 0) or (abs(theta) > np.pi/2):
+    if (r <= 0) or (t <= 0) or (abs(theta) >= np.pi/2):
         raise ValueError('Unphysical parameter arguments')
     s = np.tan(theta)
     q00 = rho*t*r**2*np.sqrt(np.pi*(1+s**2))/2
diff --git a/newt/qlmNum.py b/newt/qlmNum.py
index 024342b..8da2bdc 100644
--- a/newt/qlmNum.py
+++ b/newt/qlmNum.py
@@ -81,7 +81,9 @@ def cyl_mom(L, dens, phih, IR, OR, h1, h2):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih == 0) or (OR <= 0):
+    if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0):
+        raise ValueError('Unphysical parameter arguments')
+    if (IR < 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     for l in range(L+1):
         for m in range(l+1):
@@ -135,7 +137,9 @@ def cone_mom(L, dens, phih, IR, OR, H):
         """Boundary integral for z coordinate of cone"""
         return H*(OR-r)/(OR-IR)
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (OR < IR) or (phih == 0) or (OR <= 0):
+    if (H <= 0) or (OR < IR) or (phih <= 0) or (OR <= 0):
+        raise ValueError('Unphysical parameter arguments')
+    if (IR < 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     for l in range(L+1):
         for m in range(l+1):
@@ -191,7 +195,7 @@ def trap_mom(L, dens, phih, IR, OR, h1, h2):
     if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0):
         raise ValueError('Unphysical parameter arguments')
     # Make sure the angle makes sense
-    if (phih >= np.pi/2):
+    if (phih >= np.pi/2) or (IR < 0):
         raise ValueError('Unphysical parameter arguments')
 
     def trap_or(theta):
@@ -306,7 +310,7 @@ def platehole(L, dens, t, r, theta):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (theta >= np.pi/2) or (t <= 0):
+    if (r <= 0) or (abs(theta) >= np.pi/2) or (t <= 0):
         raise ValueError('Unphysical parameter arguments')
     tanth = np.tan(theta)
     h = t/np.cos(theta)
-- 
2.43.0


From aaaf4173251104b51101d530fe69c014cff8b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 59/62] fix: moments of slightly tapered cones in .mpc files

---
 newt/read_multiFor.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 4bd3b58..094236d 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -5,6 +5,7 @@ Created on Mon Jul 13 13:06:38 2020
 @author: John Greendeer Lee
 """
 import numpy as np
+import scipy.special as sp
 import newt.qlm as qlm
 import newt.qlmACH as qlmA
 import newt.qlmNum as qlmN
@@ -188,22 +189,21 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 dens = float(lines[3+k].split(',')[0])*1000
                 mass = dens*np.pi*H*(LR**2 + LR*UR + UR**2)/3
                 print(LR, UR, H, dens, mass)
-                if LR == UR:
-                    qlmWrk = qlm.cylinder(LMax, mass, H, LR)
-                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H/2])
-                else:
-                    # Remove the tip of a full cone
-                    Rb, Rs = max(LR, UR), min(LR, UR)
-                    Hb, Hs = H*Rb/(Rb-Rs), H*Rs/(Rb-Rs)
-                    massb = dens*np.pi*Hb*Rb**2/3
-                    qlmWrk = qlm.cone(LMax, massb, Hb, Rb, 0, np.pi)
-                    if Rs > 0:
-                        masss = dens*np.pi*Hs*Rs**2/3
-                        tip = qlm.cone(LMax, masss, Hs, Rs, 0, np.pi)
-                        qlmWrk -= trs.translate_qlm(tip, [0, 0, H])
-                    if LR < UR:
-                        qlmWrk = rot.rotate_qlm(qlmWrk, 0, np.pi, 0)
-                        qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
+                if (H <= 0) or (min(LR, UR) < 0) or (max(LR, UR) == 0):
+                    raise ValueError('Unphysical parameter arguments')
+                # Gauss-Legendre integrate over height and radius (exact for the
+                # polynomials here). Differences of full cones lose all
+                # precision for small tapers.
+                nodes, wts = np.polynomial.legendre.leggauss(LMax//2+2)
+                zs, rs = np.meshgrid(H*(1+nodes)/2, (1+nodes)/2)
+                radii = LR + (UR-LR)*zs/H
+                wts = dens*np.pi*H/2*np.outer(wts, wts)*rs*radii**2
+                r2s = zs**2 + (radii*rs)**2
+                cths = zs/np.sqrt(r2s)
+                qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
+                for l in range(LMax+1):
+                    ql0 = np.sum(wts*r2s**(l/2)*sp.eval_legendre(l, cths))
+                    qlmWrk[l, LMax] = ql0*np.sqrt((2*l+1)/(4*np.pi))
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 if (pos == 0).all() and ('add' in ''.join(lines[2+k:3+k])):
-- 
2.43.0


From 67b552f2159f519e19b5a7426bf9209948a2d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 60/62] fix: moments of slightly tapered trapezoids in .mpc
 files

---
 newt/read_multiFor.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 094236d..07f769b 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -238,22 +238,20 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     w3, w4 = w1, w2
                     flip = False
                 dens = float(lines[3+k].split(',')[0])*1000
-                y1, y2 = w3/2, w4/2
-                if w3 == w4:
-                    qlmWrk = qlm.rect_prism(LMax, dens*t*w3*h, t, h, w3, 0)
-                    qlmWrk = trs.translate_qlm(qlmWrk, [h/2, 0, 0])
-                else:
-                    hs = w3*h/(w4-w3)
-                    hb = h + hs
-                    massTrib = dens*t*w4*hb/2
-                    massTris = dens*t*w3*hs/2
-                    print(hs, hb, w3, w4)
-                    qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
-                    if w3 > 0:
-                        qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
-                    qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
+                # Rectangle with a right triangle on either side
+                qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
+                if w3 != 0:
+                    rect = qlm.rect_prism(LMax, dens*t*w3*h, t, h, w3, 0)
+                    qlmWrk += trs.translate_qlm(rect, [h/2, 0, 0])
+                if w3 != w4 or w3 == 0:
+                    dy = (w4-w3)/2
+                    massTri = dens*t*h*dy/2
+                    tri = qlm.tri_prism(LMax, massTri, t, h, 0, dy)
+                    qlmWrk += trs.translate_qlm(tri, [0, w3/2, 0])
+                    tri = qlm.tri_prism(LMax, massTri, t, h, -dy, 0)
+                    qlmWrk += trs.translate_qlm(tri, [0, -w3/2, 0])
                 if flip:
-                    qlmWrk = trs.translate_qlm(qlmWrk, [-(hb-hs), 0, 0])
+                    qlmWrk = trs.translate_qlm(qlmWrk, [-h, 0, 0])
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-- 
2.43.0


From dbdaece8be7f32961dc5ece7cd262d77f6b503e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:05 +0000
Subject: [PATCH 61/62] fix: Dlmn accepts numpy integer indices

---
 newt/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/rotations.py b/newt/rotations.py
index 7ffd77a..ee8383c 100644
--- a/newt/rotations.py
+++ b/newt/rotations.py
@@ -409,7 +409,7 @@ def Dlmn(l, m, n, alpha, beta, gamma):
         val /= (sp.factorial(k)*sp.factorial(l+m-k))
         val /= (sp.factorial(l-n-k)*sp.factorial(n-m+k))
         Dlnm += val
-    Dlnm *= np.exp(-1j*(alpha*n + gamma*m))*(-1)**(n-m)
+    Dlnm *= np.exp(-1j*(alpha*n + gamma*m))*(-1)**abs(n-m)
     Dlnm *= np.sqrt(sp.factorial(l-m)*sp.factorial(l+m))
     Dlnm *= np.sqrt(sp.factorial(l-n)*sp.factorial(l+n))
     return Dlnm
-- 
2.43.0


From 554e20857a1aac88009215a620f06badffdc6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:05 +0000
Subject: [PATCH 62/62] fix: Clebsch-Gordan coefficients accept numpy integers
 for negative M

---
 newt/clebschGordan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/clebschGordan.py b/newt/clebschGordan.py
index f2793cf..c36cf3d 100644
--- a/newt/clebschGordan.py
+++ b/newt/clebschGordan.py
@@ -50,7 +50,7 @@ def cgCoeff(j1, j2, m1, m2, J, M):
     delta = (M == (m1 + m2))
     # If we picked a negative M, then use symmetry property
     if M < 0:
-        delta *= (-1)**(J-j1-j2)
+        delta *= (-1)**abs(J-j1-j2)
         M = -M
         m1 = -m1
         m2 = -m2
@@ -119,7 +119,7 @@ def cgCoeff2(j1, j2, m1, m2, J, M):
     delta = (M == (m1 + m2))
     # If we picked a negative M, then use symmetry property
     if M < 0:
-        delta *= (-1)**(J-j1-j2)
+        delta *= (-1)**abs(J-j1-j2)
         M = -M
         m1 = -m1
         m2 = -m2
-- 
2.43.0

