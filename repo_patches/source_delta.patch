From 7bcf57bc6017b0df7ac6c2879e351ad24796774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 001/163] fix: holmes Legendre functions undefined for a
 maximum degree of 1

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index cfb11ab..f428572 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -246,7 +246,7 @@ def plm_holmes(LMAX, x,
 
     # Calculate P(LMAX,LMAX)
     rescalem = rescalem * u
-    kstart += m+2
+    kstart += LMAX+1
     p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
     # reshape Legendre polynomials to output dimensions
     for m in range(LMAX+1):
-- 
2.43.0


From 163b1bc8245052603ff5e9f9bcb7817de1b9ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 002/163] fix: shape of mohlenkamp derivatives for a truncated
 maximum order

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index f428572..7a0e4c6 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -308,7 +308,7 @@ def plm_mohlenkamp(LMAX, x,
 
     # Initialize the output Legendre polynomials
     plm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
-    dplm = np.zeros((LMAX+1, LMAX+1, sx), dtype=astype)
+    dplm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
     # Jacobi polynomial for the recurrence relation
     jlmm = np.zeros((LMAX+1, MMAX+1, sx))
     # for x=cos(th): u= sin(th)
-- 
2.43.0


From 2f4098964ae3d9b96c9abb6ee8ea4762821c5c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 003/163] fix: millimeters geoid height factor of spatial units
 was for centimeters

---
 gravity_toolkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 6fb2010..a6cc9a2 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -240,7 +240,7 @@ class units(object):
         # mmwe, millimeters water equivalent [kg/m^2]
         self.mmwe = 3.0*fraction/(1.0+2.0*self.l)/(40.0*np.pi*self.rad_e*self.rho_e)
         # mmGH, millimeters geoid height
-        self.mmGH = np.ones((self.lmax+1))/(4.0*np.pi*self.rad_e)
+        self.mmGH = np.ones((self.lmax+1))/(40.0*np.pi*self.rad_e)
         # microGal, microGal gravity perturbations
         self.microGal = (self.rad_e**2.0)/(4.0*np.pi*1.e6*self.GM)/(self.l+1.0)
         # return the degree dependent unit conversions
-- 
2.43.0


From 18182e0812018318a8db5570ad20c2ad22355940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 004/163] fix: harmonic transform for a truncated maximum order

---
 gravity_toolkit/harmonic_summation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index 3eed02c..a9f969f 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -182,7 +182,7 @@ def harmonic_transform(clm1, slm1, lon, lat,
     # calculate Ylms summation for each theta band
     for k in range(0,thmax):
         # summation over all spherical harmonic degrees
-        delta_M[:,k] = np.sum(PLM[:,:,k]*Ylms[:,:],axis=0)/2.0
+        delta_M[:,k] = np.sum(PLM[:,:MMAX+1,k]*Ylms[:,:],axis=0)/2.0
 
     # output spatial field from FFT transformation
     s = np.zeros((phimax,thmax))
-- 
2.43.0


From 6d6797f80c5e544b61bc67c18791902a27f84847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 005/163] fix: fourier coefficients of legendre functions for
 odd degrees and truncated orders

---
 gravity_toolkit/fourier_legendre.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 6cc8b5c..f0c4c62 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -48,6 +48,10 @@ def fourier_legendre(lmax, mmax):
         Fourier coefficients
     """
 
+    # recursions are for even maximum degrees and all orders
+    # will be truncated to the requested degree and order
+    LMAX, MMAX = np.copy(lmax), np.copy(mmax)
+    lmax = mmax = np.maximum(LMAX + (LMAX % 2), 4)
     # allocate for output fourier coefficients
     plm = np.zeros((lmax+1,lmax+1,lmax+1))
     l_even = np.arange(0,lmax+1,2)
@@ -209,7 +213,7 @@ def fourier_legendre(lmax, mmax):
             plm[l+2,m+2,m_odd] = (p1 - p2 + p3) / dfactor
 
     # return the fourier coefficients
-    return plm
+    return plm[:LMAX+1,:MMAX+1,:LMAX+1]
 
 def legendre_gradient(lmax, mmax):
     """
@@ -231,7 +235,7 @@ def legendre_gradient(lmax, mmax):
         Fourier coefficients for zonal gradients
     """
 
-    plm = fourier_legendre(lmax, mmax)
+    plm = fourier_legendre(lmax, lmax)
     vlm = np.zeros((lmax+1,lmax+1,lmax+1))
     wlm = np.zeros((lmax+1,lmax+1,lmax+1))
 
@@ -288,4 +292,5 @@ def legendre_gradient(lmax, mmax):
     # normalize vlm
     vlm[:,0,:] /= 2.0
 
-    return (vlm, wlm)
+    # truncate to the maximum order
+    return (vlm[:,:mmax+1,:], wlm[:,:mmax+1,:])
-- 
2.43.0


From b110dec0f266139c31c1696c987efd45c20ed37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 006/163] fix: degree and normalization of terms in zonal
 gradient coefficients

---
 gravity_toolkit/fourier_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index f0c4c62..e1bf7e8 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -271,7 +271,7 @@ def legendre_gradient(lmax, mmax):
         lminus2 = np.arange(l-2,-1,-1)# from l-2 to 0
         lminus1 = np.arange(l-1,0,-1)# from l-1 to 1
         wlm[l,m,:] = np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l,m+1,:])
+            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l-1,m+1,:])
 
     # m-1 terms, m-1=0 has different coefficients
     # m=1 term
@@ -285,7 +285,7 @@ def legendre_gradient(lmax, mmax):
         lplus2 = np.arange(l+2,2*l+1)# from l+2 to 2*l
         lplus1 = np.arange(l+1,2*l)# from l+1 to (2*l-1)
         wlm[l,m,:] += np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lplus2*lplus1)/4.0), plm[l-1,m-1,:])
+            np.dot(np.diag(np.sqrt(lplus2*lplus1/4.0)), plm[l-1,m-1,:])
     # normalizations
     for l in range(1, lmax+1):
         wlm[l,:,:] /= np.sqrt((l+1)*l)
-- 
2.43.0


From f0a164915fe5f32abf022c6ea7d64a28daf6d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 007/163] fix: meridional gradients and sign of zonal gradients
 of harmonics

---
 gravity_toolkit/harmonic_gradients.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index dfc5ae3..580c339 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -101,18 +101,18 @@ def harmonic_gradients(clm1, slm1, lon, lat,
     # generate Vlm coefficients (vlm and wlm)
     vlm, wlm = legendre_gradient(LMAX, MMAX)
 
-    dlm = np.zeros((LMAX+1,LMAX+1,2))
-    # minus sign is because lat and theta change with opposite sign
+    # vlm are gradients with respect to latitude
+    dlm = np.zeros((LMAX+1,MMAX+1,2))
     for l in range(0,LMAX+1):
-        dlm[l,:,0] = -clm[l,:]*np.sqrt((l+1.0)*l)
-        dlm[l,:,1] = -slm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,0] = clm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,1] = slm[l,:]*np.sqrt((l+1.0)*l)
 
-    m_even = np.arange(0,MMAX+2,2)
-    m_odd = np.arange(1,MMAX,2)
+    m_even = np.arange(0,MMAX+1,2)
+    m_odd = np.arange(1,MMAX+1,2)
 
     # Calculate fourier coefficients from legendre coefficients
-    d_cos = np.zeros((LMAX+1,thmax,2))
-    d_sin = np.zeros((LMAX+1,thmax,2))
+    d_cos = np.zeros((MMAX+1,thmax,2))
+    d_sin = np.zeros((MMAX+1,thmax,2))
     cnk = np.cos(np.dot(th[:,np.newaxis],ll))
     snk = np.sin(np.dot(th[:,np.newaxis],ll))
 
@@ -127,8 +127,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_even,:,0] = np.dot(wtmp[:,:,1],np.transpose(snk))
     d_sin[m_even,:,0] = np.dot(-wtmp[:,:,0],np.transpose(snk))
-    d_cos[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
-    d_sin[m_even,:,1] = np.dot(-vtmp[:,:,0],np.transpose(snk))
+    d_cos[m_even,:,1] = np.dot(vtmp[:,:,0],np.transpose(snk))
+    d_sin[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
 
     # m = odd terms (vlm,wlm cosine series)
     wtmp = np.zeros((len(m_odd),LMAX+1,2))
@@ -141,8 +141,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_odd,:,0] = np.dot(wtmp[:,:,1],np.transpose(cnk))
     d_sin[m_odd,:,0] = np.dot(-wtmp[:,:,0],np.transpose(cnk))
-    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
-    d_sin[m_odd,:,1] = np.dot(-vtmp[:,:,0],np.transpose(cnk))
+    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,0],np.transpose(cnk))
+    d_sin[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
 
     # Calculating cos(m*phi) and sin(m*phi)
     ccos = np.cos(np.dot(mm,phi))
-- 
2.43.0


From bd1a7f5a2add28cddb340b014bcaa45729df54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 008/163] fix: geostrophic currents with Love numbers given as
 a tuple

---
 gravity_toolkit/harmonic_gradients.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 580c339..6d5d743 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -220,7 +220,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
 
     # Setting units factor for output
     # extract arrays of kl, hl, and ll Love Numbers
-    factors = units(lmax=LMAX).harmonic(*LOVE)
+    hl, kl, ll = LOVE
+    factors = units(lmax=LMAX).harmonic(hl, kl, ll)
     coeff = factors.g_wmo*factors.rho_e/(6.0*factors.omega*DENSITY)
 
     # if plms are not pre-computed: calculate Legendre polynomials
@@ -234,9 +235,9 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     for l in range(1, LMAX):
         # truncate to degree and order
         mm = np.arange(0, np.min([l,MMAX])+1)
-        temp1 = (l - 1.0)/(1.0 + LOVE.kl[l-1]) * \
+        temp1 = (l - 1.0)/(1.0 + kl[l-1]) * \
             np.sqrt((l**2 - mm**2)*(2.0*l - 1.0)/(2.0*l + 1))
-        temp2 = (l + 2.0)/(1.0 + LOVE.kl[l+1]) * \
+        temp2 = (l + 2.0)/(1.0 + kl[l+1]) * \
             np.sqrt(((l+1)**2 - mm**2)*(2.0*l + 3.0)/(2.0*l + 1))
         clm[l,mm,0] = coeff*wl[l]*(temp1*clm1[l-1,mm] - temp2*clm1[l+1,mm])
         slm[l,mm,0] = coeff*wl[l]*(temp1*slm1[l-1,mm] - temp2*slm1[l+1,mm])
@@ -244,7 +245,7 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     for l in range(0, LMAX+1):
         # truncate to degree and order
         mm = np.arange(0, np.min([l,MMAX])+1)
-        temp = mm*(2.0*l + 1.0)/(1.0 + LOVE.kl[l])
+        temp = mm*(2.0*l + 1.0)/(1.0 + kl[l])
         clm[l,mm,1] = -coeff*wl[l]*temp*slm1[l,mm]
         slm[l,mm,1] = coeff*wl[l]*temp*clm1[l,mm]
 
-- 
2.43.0


From e8d9bf13a7083e45f72afbeb9c64bf047a687964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 009/163] fix: minimum degree of geostrophic currents was
 ignored

---
 gravity_toolkit/harmonic_gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 6d5d743..7f0046b 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -252,8 +252,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     # Truncating harmonics to degree and order LMAX
     # removing coefficients below LMIN and above MMAX
     mm = np.arange(0, MMAX+1)
-    clm[LMIN:LMAX+1,mm,:] = clm[LMIN:LMAX+1,mm,:]
-    slm[LMIN:LMAX+1,mm,:] = slm[LMIN:LMAX+1,mm,:]
+    clm[:LMIN,:,:] = 0.0
+    slm[:LMIN,:,:] = 0.0
 
     # Calculate fourier coefficients from legendre coefficients
     d_cos = np.zeros((MMAX+1,thmax,2))# [m,th]
-- 
2.43.0


From 16571377bf40d23e680dc2e116f8ee6e65249ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 010/163] fix: polar grid points in fourier analysis of spatial
 fields

---
 gravity_toolkit/gen_harmonics.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 8044f69..fd4715f 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -287,7 +287,8 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     n_even = len(m_even)
     n_odd = len(m_odd)
 
-    if np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).all():
+    endpoints = [np.min(theta), np.max(theta)]
+    if np.isclose(endpoints,[0.0,np.pi]).all():
         # non-endpoints
         nt = np.dot(mm,theta[1:nlat-1][np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,1:nlat-1],np.cos(nt).T)
@@ -296,16 +297,14 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         theta_sc[m_odd,:] = 2.0*np.dot(dsin[m_odd,1:nlat-1],np.sin(nt).T)
 
         # endpoints
-        theta_cc[m_even,:] += np.dot((dcos[m_even,0]*np.cos(theta[0]) +
-            dcos[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_even,:] += np.dot((dsin[m_even,0]*np.cos(theta[0]) +
-            dsin[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_cc[m_odd,:] += np.dot((dcos[m_odd,0]*np.sin(theta[0]) +
-            dcos[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_odd,:] += np.dot((dsin[m_odd,0]*np.sin(theta[0]) +
-            dsin[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-
-    elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
+        for n in (0, nlat-1):
+            nt = np.dot(mm,theta[n])
+            theta_cc[m_even,:] += np.dot(dcos[m_even,n][:,np.newaxis],np.cos(nt).T)
+            theta_sc[m_even,:] += np.dot(dsin[m_even,n][:,np.newaxis],np.cos(nt).T)
+            theta_cc[m_odd,:] += np.dot(dcos[m_odd,n][:,np.newaxis],np.sin(nt).T)
+            theta_sc[m_odd,:] += np.dot(dsin[m_odd,n][:,np.newaxis],np.sin(nt).T)
+
+    elif not np.isclose(endpoints,[0.0,np.pi]).any():
         nt = np.dot(mm,theta[np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,:],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,:],np.cos(nt).T)
-- 
2.43.0


From 4e71be9aa58b4821ea1bff0028f2f02cab365e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 011/163] fix: fourier analysis for odd maximum degrees and
 truncated maximum orders

---
 gravity_toolkit/gen_harmonics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index fd4715f..df2cafe 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -254,6 +254,10 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         spherical harmonic order to MMAX
     """
 
+    # calculate using an even maximum degree for all orders
+    # will be truncated to the requested degree and order
+    lmax, mmax = np.copy(LMAX), np.copy(MMAX)
+    LMAX = MMAX = lmax + (lmax % 2)
     # dimensions of the longitude and latitude arrays
     nlon = np.int64(len(lon))
     nlat = np.int64(len(lat))
@@ -334,7 +338,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         plm = fourier_legendre(LMAX,MMAX)
     else:
         # use precomputed plms to improve computational speed
-        plm = PLM
+        plm = np.zeros((LMAX+1, LMAX+1, LMAX+1))
+        n1, n2, n3 = np.shape(PLM)
+        plm[:n1,:n2,:n3] = PLM
 
     # Initializing output spherical harmonic matrices
     Ylms = gravity_toolkit.harmonics(lmax=LMAX, mmax=MMAX)
@@ -397,4 +403,4 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     Ylms.slm[:,1:MMAX+1] /= 4.0
 
     # return the output spherical harmonics object
-    return Ylms
+    return Ylms.truncate(lmax, mmax=mmax)
-- 
2.43.0


From 8da51b30a535a6407ce447668f775ce8cb535b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 012/163] fix: truncation of harmonics to a maximum order of 0

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f021275..0c8d406 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1614,7 +1614,7 @@ class harmonics(object):
         temp = self.copy()
         # set new degree and order
         self.lmax = np.copy(lmax)
-        self.mmax = np.copy(mmax) if mmax else np.copy(lmax)
+        self.mmax = np.copy(mmax)
         # truncation levels
         l1 = self.lmax+1 if (temp.lmax > self.lmax) else temp.lmax+1
         m1 = self.mmax+1 if (temp.mmax > self.mmax) else temp.mmax+1
-- 
2.43.0


From a7ac9808ff75a1a068118f091a8f959ed16e164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 013/163] fix: evaluation of legendre polynomials of disc loads
 and spherical caps

---
 gravity_toolkit/gen_disc_load.py     | 4 ++--
 gravity_toolkit/gen_spherical_cap.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index 015b391..b6f451e 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -181,8 +181,8 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculate Legendre Polynomials using Holmes and Featherstone relation
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 208d888..49782c5 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -223,8 +223,8 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculating Legendre Polynomials
-- 
2.43.0


From 58e8711c17c6eb2a47f16faf3deda30b2692082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 014/163] fix: disc loads and spherical caps for a maximum
 order of 0

---
 gravity_toolkit/gen_disc_load.py     | 2 +-
 gravity_toolkit/gen_spherical_cap.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index b6f451e..6f651df 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -191,7 +191,7 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = plmout[:,:MMAX+1,0]
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 49782c5..4f8165f 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -234,7 +234,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = plmout[:,:MMAX+1,0]
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
-- 
2.43.0


From 04a8f58e3e27e5d8fa56f4f89f67fadc4507a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 015/163] fix: spherical harmonics of a single point load

---
 gravity_toolkit/gen_point_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/gen_point_load.py b/gravity_toolkit/gen_point_load.py
index 8cf05d8..4c37c47 100644
--- a/gravity_toolkit/gen_point_load.py
+++ b/gravity_toolkit/gen_point_load.py
@@ -173,7 +173,7 @@ def spherical_harmonic_matrix(l, data, phi, theta, coeff):
     # spherical harmonic orders up to degree l
     m = np.arange(0, l+1)
     # calculate Euler's of spherical harmonic order multiplied by azimuth phi
-    mphi = np.exp(1j*np.dot(np.squeeze(phi)[:,np.newaxis], m[np.newaxis,:]))
+    mphi = np.exp(1j*np.dot(phi[:,np.newaxis], m[np.newaxis,:]))
     # reshape data to order
     D = np.kron(np.ones((1, l+1)), data[:,np.newaxis])
     # calculate spherical harmonics and multiply by coefficients and data
-- 
2.43.0


From 74deb9c973f83b754db0d4dd3b35c1dcc915d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 016/163] fix: last degree of Love number files was replaced by
 its extrapolation

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f1b2f44..f579127 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -204,7 +204,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
     # maximum degree of the Love/Shida numbers dataset
-    for lint in range(l,LMAX+1):
+    for lint in range(l+1,LMAX+1):
         # linearly extrapolate to maximum degree
         for n in ('hl','kl','ll'):
             love[n][lint] = 2.0*love[n][lint-1] - love[n][lint-2]
-- 
2.43.0


From dfa718dc221fe34cf137ac07cd0c94b19adcfcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 017/163] fix: dates of harmonics objects built from a list

---
 gravity_toolkit/harmonics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 0c8d406..3346a6f 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -663,8 +663,8 @@ class harmonics(object):
             self.clm[:,:,t] = object_list[i].clm[:self.lmax+1,:self.mmax+1]
             self.slm[:,:,t] = object_list[i].slm[:self.lmax+1,:self.mmax+1]
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From dda97d040d7217c6263b3afda13a66d297f17f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 018/163] fix: dates of spatial objects built from a list

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 255b57e..ccfe543 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -646,8 +646,8 @@ class spatial(object):
             if hasattr(object_list[i], 'error'):
                 self.error[:,:,t] = object_list[i].error[:,:].copy()
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From e16516b1faed1e56c88a561aef6d2c9d929e05bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 019/163] fix: scaling of harmonics time series with a
 time-variable scalar

---
 gravity_toolkit/harmonics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 3346a6f..a26bcd0 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1702,6 +1702,8 @@ class harmonics(object):
                 temp.clm[:,:,i] = v*self.clm
                 temp.slm[:,:,i] = v*self.slm
         elif (np.ndim(var) == 1) and (self.ndim == 3):
+            temp.clm = np.zeros_like(self.clm)
+            temp.slm = np.zeros_like(self.slm)
             for i,v in enumerate(var):
                 temp.clm[:,:,i] = v*self.clm[:,:,i]
                 temp.slm[:,:,i] = v*self.slm[:,:,i]
-- 
2.43.0


From ca3ef959e8ee1dba83123adf0367ab13d86621f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 020/163] fix: squeezing harmonics without updating dimensions

---
 gravity_toolkit/harmonics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index a26bcd0..935e526 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1419,9 +1419,6 @@ class harmonics(object):
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-        else:
-            self.ndim = self.clm.ndim
-            self.shape = self.clm.shape
         return self
 
     def flatten(self, date=True):
-- 
2.43.0


From c68fbaddb5f897ed553e6b0104bb0bdd0dfc01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 021/163] fix: reading spherical harmonic model files with
 from_file

---
 gravity_toolkit/harmonics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 935e526..b7574bd 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -721,7 +721,8 @@ class harmonics(object):
             return harmonics().from_gfc(filename, **kwargs)
         elif (format == 'SHM'):
             # spherical harmonic model
-            return harmonics().from_SHM(filename, self.lmax, **kwargs)
+            return harmonics(lmax=self.lmax, mmax=self.mmax).from_SHM(
+                filename, **kwargs)
 
     def from_dict(self, d, **kwargs):
         """
-- 
2.43.0


From 3ad10adc7656aedef3f6f7aa6f5ed6e0f6d316a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 022/163] fix: text form of harmonics objects with months

---
 gravity_toolkit/harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index b7574bd..fc2a4d8 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1888,9 +1888,9 @@ class harmonics(object):
         properties.append(f"    max_degree: {self.lmax}")
         if self.mmax and (self.mmax != self.lmax):
             properties.append(f"    max_order: {self.mmax}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
-- 
2.43.0


From 9740068f666c44dd37e23cb44e8b4acd1ab1c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 023/163] fix: complex coefficients and amplitudes of modified
 harmonics were outdated

---
 gravity_toolkit/harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index fc2a4d8..034494b 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -108,7 +108,7 @@ from gravity_toolkit.time import adjust_months,calendar_to_grace
 from gravity_toolkit.destripe_harmonics import destripe_harmonics
 from gravity_toolkit.read_gfc_harmonics import read_gfc_harmonics
 from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics
-from gravity_toolkit.utilities import import_dependency, reify
+from gravity_toolkit.utilities import import_dependency
 
 # attempt imports
 geoidtk = import_dependency('geoid_toolkit')
@@ -1828,7 +1828,7 @@ class harmonics(object):
         # return the destriped field
         return temp
 
-    @reify
+    @property
     def amplitude(self):
         """
         Degree amplitude of the spherical harmonics
@@ -1874,7 +1874,7 @@ class harmonics(object):
         """
         return np.ndim(self.clm)
 
-    @reify
+    @property
     def ilm(self):
         """
         Complex form of the spherical harmonics
-- 
2.43.0


From bebc2167701c4787a3b0106f42fed63a01e005aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 024/163] fix: squeezing static harmonics with a maximum order
 of 0

---
 gravity_toolkit/harmonics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 034494b..9bd1d98 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1409,14 +1409,13 @@ class harmonics(object):
         update_dimensions: bool, default True
             Update the degree and order dimensions
         """
-        # squeeze singleton dimensions
-        try:
+        # squeeze singleton dimensions (if there is a temporal dimension)
+        temporal_ndim = 2 if self.flattened else 3
+        if (self.ndim == temporal_ndim) and (self.shape[-1] == 1):
             self.clm = np.squeeze(self.clm, axis=-1)
             self.slm = np.squeeze(self.slm, axis=-1)
             self.time = np.squeeze(self.time)
             self.month = np.squeeze(self.month)
-        except ValueError as exc:
-            pass
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-- 
2.43.0


From 0b35ae6908e6f634d57f01504decdbf8c261105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 025/163] fix: subsets of time series with repeated months

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 9bd1d98..3a8a81c 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1557,8 +1557,6 @@ class harmonics(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1566,6 +1564,8 @@ class harmonics(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output harmonics object
         temp = harmonics(lmax=np.copy(self.lmax), mmax=np.copy(self.mmax))
         # create output harmonics
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index ccfe543..d68f6d6 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1352,8 +1352,6 @@ class spatial(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1361,6 +1359,8 @@ class spatial(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output spatial object
         temp = self.zeros_like()
         # create output spatial object
-- 
2.43.0


From b548042f5ba77286f51c1c92606ba39426c6c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 026/163] fix: copies of objects shared their nested attributes

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 3a8a81c..4a22250 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1320,9 +1320,9 @@ class harmonics(object):
         temp = harmonics(lmax=self.lmax, mmax=self.mmax)
         # copy attributes or update attributes dictionary
         if isinstance(self.attributes, list):
-            setattr(temp,'attributes',self.attributes)
+            setattr(temp,'attributes',copy.deepcopy(self.attributes))
         elif isinstance(self.attributes, dict):
-            temp.attributes.update(self.attributes)
+            temp.attributes.update(copy.deepcopy(self.attributes))
         # try to assign variables to self
         for key in ['clm','slm','time','month','filename']:
             try:
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index d68f6d6..e4465d6 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1186,9 +1186,9 @@ class spatial(object):
         temp = spatial(fill_value=self.fill_value)
         # copy attributes or update attributes dictionary
         if isinstance(self.attributes, list):
-            setattr(temp,'attributes',self.attributes)
+            setattr(temp,'attributes',copy.deepcopy(self.attributes))
         elif isinstance(self.attributes, dict):
-            temp.attributes.update(self.attributes)
+            temp.attributes.update(copy.deepcopy(self.attributes))
         # assign variables to self
         var = ['lon','lat','data','mask','error','time','month','filename']
         for key in var:
-- 
2.43.0


From 220e980277365a04a5210ea0b5f4bf396eeb1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 027/163] fix: months of time series with a single date were
 reduced to a scalar

---
 gravity_toolkit/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 8ad52ce..21cb0e3 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -349,6 +349,7 @@ def adjust_months(grace_month):
     For GSFC: Oct 2018 (202) is centered in Nov 2018 (203)
     """
     # verify dimensions
+    single_value = (np.ndim(grace_month) == 0)
     grace_month = np.atleast_1d(grace_month)
     # number of months
     nmon = len(grace_month)
@@ -384,7 +385,7 @@ def adjust_months(grace_month):
             # case where month should be -1
             m[j] = grace_month[j] - 1
     # update months and remove singleton dimensions if necessary
-    return np.squeeze(m)
+    return np.squeeze(m) if single_value else m
 
 # PURPOSE: convert calendar dates to GRACE/GRACE-FO months
 def calendar_to_grace(year,month=1,around=np.floor):
-- 
2.43.0


From 9cf39a1bfd88f5adb90d7f0de227bfd705e25209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 028/163] fix: repeated months outside of the special cases
 were set to 0

---
 gravity_toolkit/time.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 21cb0e3..6a4b4cf 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -384,6 +384,12 @@ def adjust_months(grace_month):
         elif (mon == mp1) and ((mon == (mm1 + 2)) or (mp2 == (mp1 + 1))):
             # case where month should be -1
             m[j] = grace_month[j] - 1
+        else:
+            # case where month does not meet any of the criteria
+            m[j] = np.copy(grace_month[j])
+    # months repeated more than twice cannot be adjusted
+    case3, = np.nonzero(c[i] > 2)
+    m[case3] = grace_month[case3]
     # update months and remove singleton dimensions if necessary
     return np.squeeze(m) if single_value else m
 
-- 
2.43.0


From 91af66733757dc9b4a50e206a18f0380ec0a6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 029/163] fix: reading ascii harmonics from in-memory bytes

---
 gravity_toolkit/harmonics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 4a22250..b307cf0 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -250,7 +250,11 @@ class harmonics(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            # decode bytes from in-memory file objects
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with open(self.filename, mode='r', encoding='utf8') as f:
-- 
2.43.0


From 199c67b4b171bdeeb43d7c0ee6618a47b5a9e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 030/163] fix: longitude of the last column of extended grids

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index e4465d6..3e5fdce 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1261,7 +1261,7 @@ class spatial(object):
         temp.lon = np.zeros((nx+2), dtype=self.lon.dtype)
         temp.lon[0] = self.lon[0] - self.spacing[0]
         temp.lon[1:-1] = self.lon[:]
-        temp.lon[-1] = self.lon[-1] + self.spacing[1]
+        temp.lon[-1] = self.lon[-1] + self.spacing[0]
         # attempt to extend possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 3130eaaf15b2c64948f30206ec47fbc1551a1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 031/163] fix: months and files of grids reversed in time

---
 gravity_toolkit/spatial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 3e5fdce..b26438f 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1518,6 +1518,10 @@ class spatial(object):
             temp.lon = temp.lon[::-1].copy()
         elif (axis == 2):
             temp.time = temp.time[::-1].copy()
+            temp.month = temp.month[::-1].copy()
+            # reverse the list of files if applicable
+            if isinstance(temp.filename, (list, tuple, np.ndarray)):
+                temp.filename = temp.filename[::-1]
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From cdbdace821c9bc603160965d67e14a93c087ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 032/163] fix: masked cells of spatial powers

---
 gravity_toolkit/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index b26438f..bb5bfa5 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1586,6 +1586,8 @@ class spatial(object):
         """
         temp = self.copy()
         temp.data = np.power(self.data,power)
+        # update mask
+        temp.update_mask()
         return temp
 
     def max(self):
-- 
2.43.0


From b50eafd0facd101f0fcdec4a3b62a919a9b14563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 033/163] fix: masked cells of anomalies from a spatial mean

---
 gravity_toolkit/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index bb5bfa5..3f59042 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1496,6 +1496,9 @@ class spatial(object):
         if apply:
             for i,t in enumerate(self.time):
                 self.data[:,:,i] -= temp.data[:,:]
+                self.mask[:,:,i] |= temp.mask[:,:]
+            # update mask of anomalies
+            self.update_mask()
         # update mask
         temp.update_mask()
         return temp
-- 
2.43.0


From f79f107daba722d15653f7e305f4a244e083209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 034/163] fix: text form of spatial objects with months

---
 gravity_toolkit/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 3f59042..690b89b 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1711,9 +1711,9 @@ class spatial(object):
         properties.append(f"    extent: {extent}")
         shape = ', '.join(map(str, self.shape))
         properties.append(f"    shape: {shape}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
-- 
2.43.0


From d44ae1e8d4367485fadb91976875f16a55957118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 035/163] fix: iterating over harmonics and spatial objects
 without dates

---
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index b307cf0..eadf81d 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1920,7 +1920,7 @@ class harmonics(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError, TypeError) as exc:
             pass
         # subset filename if applicable
         if getattr(self, 'filename'):
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 690b89b..feb3a25 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1742,7 +1742,7 @@ class spatial(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError, TypeError) as exc:
             pass
         # subset output spatial error
         try:
-- 
2.43.0


From a08281340f096694f97c094beb06b9f5b9d11eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 036/163] fix: errors of scaling factors for fields containing
 zeros

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index feb3a25..e4088e9 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1987,9 +1987,9 @@ class scaling_factors(spatial):
         val2 = np.sum(temp1.data[indy,indx,:]**2,axis=1)
         temp.data[indy,indx] = val1/val2
         # calculate difference between scaled and original
-        variance = temp1.scale(temp.data).offset(-temp2.data)
+        variance = temp1.data*temp.data[:,:,None] - temp2.data
         # calculate scaling factor errors as RMS of variance
-        temp.error = np.sqrt((variance.sum(power=2).data)/nt)
+        temp.error = np.sqrt(np.sum(variance**2, axis=2)/nt)
         # calculate magnitude of original data
         temp.magnitude = temp2.sum(power=2.0).power(0.5).data[:]
         # update mask
-- 
2.43.0


From 57ed9b8bbe5fd3c38bb1b7f673911e8ce768d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 037/163] fix: flipped and transposed grids shared their data
 with the original

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index e4088e9..c585fe0 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1528,7 +1528,7 @@ class spatial(object):
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.flip(getattr(self, key), axis=axis))
+                setattr(temp, key, np.flip(getattr(self, key), axis=axis).copy())
             except Exception as exc:
                 pass
         # update mask
@@ -1549,7 +1549,7 @@ class spatial(object):
         # attempt to transpose possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.transpose(getattr(self, key), axes=axes))
+                setattr(temp, key, np.transpose(getattr(self, key), axes=axes).copy())
             except Exception as exc:
                 pass
         # update mask
-- 
2.43.0


From 3149b82e5cc285bc8679cd3744bcf7c56ddb1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 038/163] fix: reading dates of ascii spatial files

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c585fe0..7208fb8 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -276,7 +276,7 @@ class spatial(object):
         self.data = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
-        columns = [c for c in kwargs['columns'] if (c != 'time')]
+        columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
         # for each line in the file
         header = kwargs['header']
-- 
2.43.0


From 123a05c8187c800796965e8ea95608efc43fbbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 039/163] fix: reading scaling factors from ascii files

---
 gravity_toolkit/spatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 7208fb8..87d1589 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1897,6 +1897,9 @@ class scaling_factors(spatial):
         # output spatial data
         self.data = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
+        # output scaling factor errors and magnitudes
+        self.error = np.zeros((nlat, nlon))
+        self.magnitude = np.zeros((nlat, nlon))
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
         # extract spatial data array and convert to matrix
@@ -1910,7 +1913,7 @@ class scaling_factors(spatial):
             ilon = np.int64(np.float64(d['lon'])/dlon)
             ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
             # get scaling factor, error and magnitude
-            self.data[ilat,ilon] = np.float64(d['data'])
+            self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
             self.magnitude[ilat,ilon] = np.float64(d['magnitude'])
             # set mask
-- 
2.43.0


From 49d33cf04b346f6ca7a19ec7dd808acefc99694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 040/163] fix: grid of ascii spatial files for an extent and
 spacing

---
 gravity_toolkit/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 87d1589..40a5671 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -261,8 +261,8 @@ class spatial(object):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
@@ -1883,8 +1883,8 @@ class scaling_factors(spatial):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
-- 
2.43.0


From 6f82ced51443b380a6dc4aadd0762a2dde221aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 041/163] fix: grid indices of ascii spatial files for regional
 and fine grids

---
 gravity_toolkit/spatial.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 40a5671..767b8c4 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -285,8 +285,8 @@ class spatial(object):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0 - np.float64(d['lat']))//dlat)
+            ilon, ilat = self.get_indices(np.float64(d['lon']),
+                np.float64(d['lat']), dlon, dlat, kwargs['extent'])
             self.data[ilat, ilon] = np.float64(d['data'])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
@@ -303,6 +303,34 @@ class spatial(object):
         self.update_mask()
         return self
 
+    def get_indices(self, lon, lat, dlon, dlat, extent):
+        """
+        Get the grid indices of a coordinate
+
+        Parameters
+        ----------
+        lon: float
+            longitude
+        lat: float
+            latitude
+        dlon: float
+            grid step size in longitude
+        dlat: float
+            grid step size in latitude
+        extent: list
+            spatial grid bounds
+        """
+        if None not in extent:
+            # nearest grid points within the spatial bounds
+            ilon = np.around((lon - extent[0])/dlon)
+            ilat = np.around((extent[3] - lat)/dlat)
+        else:
+            # global grid cells (with a tolerance for the written precision)
+            ilon = np.floor(lon/dlon + 1e-3)
+            ilat = np.floor((90.0 - lat)/dlat + 1e-3)
+        # return the indices
+        return (np.int64(ilon), np.int64(ilat))
+
     def from_netCDF4(self, filename, **kwargs):
         """
         Read a ``spatial`` object from a netCDF4 file
@@ -1910,8 +1938,8 @@ class scaling_factors(spatial):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
+            ilon, ilat = self.get_indices(np.float64(d['lon']),
+                np.float64(d['lat']), dlon, dlat, kwargs['extent'])
             # get scaling factor, error and magnitude
             self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
-- 
2.43.0


From 710e5f7a9a335858c6cea3e6a2b37b675c279f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 042/163] fix: mask of points not in ascii spatial files

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 767b8c4..8bdb4ec 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -274,7 +274,7 @@ class spatial(object):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
@@ -1924,7 +1924,7 @@ class scaling_factors(spatial):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # output scaling factor errors and magnitudes
         self.error = np.zeros((nlat, nlon))
         self.magnitude = np.zeros((nlat, nlon))
-- 
2.43.0


From e8890006e08dd4c519e271a1f6c3cd1f4feedb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 043/163] fix: reading ascii spatial data from in-memory bytes

---
 gravity_toolkit/spatial.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 8bdb4ec..32733e7 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -242,7 +242,11 @@ class spatial(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            # decode bytes from in-memory file objects
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
@@ -1892,7 +1896,11 @@ class scaling_factors(spatial):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            # decode bytes from in-memory file objects
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From 9a69c203293809d7fbe5a89d1aefc6e8cb8734d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 044/163] fix: writing spatial objects that were built from a
 list

---
 gravity_toolkit/spatial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 32733e7..dd2f12d 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -841,7 +841,10 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        attributes = {}
+        # attributes of objects built from a list are not for a single file
+        if isinstance(self.attributes, dict):
+            attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
@@ -985,7 +988,10 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        attributes = {}
+        # attributes of objects built from a list are not for a single file
+        if isinstance(self.attributes, dict):
+            attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
-- 
2.43.0


From 315b88b5fa1397990b541b7b78daf6058afc59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 045/163] fix: grids with as many latitudes as longitudes were
 transposed when read

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index dd2f12d..d8b3070 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -434,7 +434,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
@@ -558,7 +559,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
-- 
2.43.0


From 83dc4caf9fc2bc3c31e6d52c3f73e645436143f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 046/163] fix: Julian days of decimal years were one day early

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 6a4b4cf..2f21f5d 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -459,7 +459,7 @@ def calendar_to_julian(year_decimal):
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
         np.floor(3.0*(np.floor((7.0*year - 1.0)/700.0) + 1.0)/4.0) +
-        DofY + 1721058.5, dtype=np.float64)
+        DofY + 1721059.5, dtype=np.float64)
     return JD
 
 # days per month in a leap and a standard year
-- 
2.43.0


From f163be4a1bd540eff7cb2bfcaae5d6b767e12260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 047/163] fix: Julian days of arrays of decimal years

---
 gravity_toolkit/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 2f21f5d..3691cdf 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -454,7 +454,8 @@ def calendar_to_julian(year_decimal):
     # calculate year
     year = np.floor(year_decimal)
     # calculation of day of the year
-    dpy = calendar_days(year).sum()
+    dpy = np.reshape([calendar_days(y).sum() for y in np.ravel(year)],
+        np.shape(year))
     DofY = dpy*(year_decimal % 1)
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
-- 
2.43.0


From 4cef9f81c121b4d73d351d701eea1febec480f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 048/163] fix: days of dates from March to August in century
 years

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 3691cdf..c51c351 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -589,7 +589,7 @@ def convert_calendar_dates(year, month, day, hour=0.0, minute=0.0, second=0.0,
     # calculate date in Modified Julian Days (MJD) from calendar date
     # MJD: days since November 17, 1858 (1858-11-17T00:00:00)
     MJD = 367.0*year - np.floor(7.0*(year + np.floor((month+9.0)/12.0))/4.0) - \
-        np.floor(3.0*(np.floor((year + (month - 9.0)/7.0)/100.0) + 1.0)/4.0) + \
+        np.floor(3.0*(np.floor((year + np.trunc((month - 9.0)/7.0))/100.0) + 1.0)/4.0) + \
         np.floor(275.0*month/9.0) + day + hour/24.0 + minute/1440.0 + \
         second/86400.0 + 1721028.5 - 2400000.5
     # convert epochs to datetime variables
-- 
2.43.0


From 59ac0f3071bc8ac0b2e2f4b28a7af54ea036107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 049/163] fix: end days of monthly GRAZ and Swarm solutions
 were one day late in date files

---
 gravity_toolkit/grace_date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_date.py b/gravity_toolkit/grace_date.py
index 6201292..279faf0 100644
--- a/gravity_toolkit/grace_date.py
+++ b/gravity_toolkit/grace_date.py
@@ -274,7 +274,7 @@ def grace_date(base_dir, PROC='', DREL='', DSET='', OUTPUT=True, MODE=0o775):
         if OUTPUT:
             print((f'{tdec[t]:13.8f} {mon[t]:03d} '
                 f'{start_yr[t]:8.0f} {start_day[t]:03.0f} '
-                f'{end_yr[t]:8.0f} {end_day[t]:03.0f} '
+                f'{end_yr[t]:8.0f} {np.floor(end_day[t]):03.0f} '
                 f'{tot_days[t]:8.0f}'), file=fid)
 
     # close date file
-- 
2.43.0


From 78eef14a16657c63d7355d21ce97ba124bd0866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 050/163] fix: reading date files with a single solution

---
 gravity_toolkit/grace_find_months.py  | 2 +-
 gravity_toolkit/grace_months_index.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_find_months.py b/gravity_toolkit/grace_find_months.py
index 2105fb0..8d44c3f 100644
--- a/gravity_toolkit/grace_find_months.py
+++ b/gravity_toolkit/grace_find_months.py
@@ -118,7 +118,7 @@ def grace_find_months(base_dir, PROC, DREL, DSET='GSM'):
     dtype = np.dtype({'names':names, 'formats':formats})
     # read GRACE/GRACE-FO date ascii file
     # skip the header row and extract dates (decimal format) and months
-    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype, ndmin=1)
     # date info dictionary
     var_info = {}
     var_info['time'] = date_input['t']
diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 00531d7..135c5b9 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -123,7 +123,7 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
                 var_name = f'{pr}_{rl}'
                 # skip the header line
                 var_info[var_name] = np.loadtxt(grace_date_file,
-                    skiprows=1, dtype=dtype)
+                    skiprows=1, dtype=dtype, ndmin=1)
                 # Finding the maximum month measured
                 if (var_info[var_name]['mon'].max() > max_mon):
                     # if the maximum month in this dataset is greater
-- 
2.43.0


From 9e608280402a1e35d32e4485c72961f30e4651cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 051/163] fix: index of GRACE months without a permissions mode

---
 gravity_toolkit/grace_months_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 135c5b9..85e510f 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -178,7 +178,8 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
     # close months file
     fid.close()
     # set the permissions level of the output file
-    grace_months_file.chmod(mode=MODE)
+    if MODE is not None:
+        grace_months_file.chmod(mode=MODE)
 
 # PURPOSE: create argument parser
 def arguments():
-- 
2.43.0


From 245c66f2570ca7c8146a4ee842acce9d65c4f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 052/163] fix: reducing lists of GFZ release 5 files with
 repeated dates

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index c51c351..1dab395 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -298,7 +298,7 @@ def reduce_by_date(granules):
     # COSTG: International Combined Time-variable Gravity Fields
     args = r'UTCSR|EIGEN|GFZOP|JPLEM|JPLMSC|GRGS|COSTG'
     regex_pattern = (r'(.*?)-2_(\d{{4}})(\d{{3}})-(\d{{4}})(\d{{3}})_(.*?)_'
-        r'({0})_(.*?)_(\d{{2}})(\d{{2}})(.*?)(\.gz|\.gfc)?$').format(args)
+        r'({0})_(.*?)_(\d{{2}})(\d{{1,2}})(.*?)(\.gz|\.gfc)?$').format(args)
     rx = re.compile(regex_pattern, re.VERBOSE)
     # for each unique date
     for d in sorted(set(date_list)):
-- 
2.43.0


From b16b90fb20212563bb01434672b34780a3205d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 053/163] fix: drift rates beyond the truncation limits of
 Level-2 files

---
 gravity_toolkit/read_GRACE_harmonics.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/read_GRACE_harmonics.py b/gravity_toolkit/read_GRACE_harmonics.py
index 4a628e8..94ccfc9 100644
--- a/gravity_toolkit/read_GRACE_harmonics.py
+++ b/gravity_toolkit/read_GRACE_harmonics.py
@@ -186,7 +186,9 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
     # spherical harmonic uncalibrated standard deviations
     grace_L2_input['eclm'] = np.zeros((LMAX+1, MMAX+1))
     grace_L2_input['eslm'] = np.zeros((LMAX+1, MMAX+1))
-    if ((DREL == 4) and (DSET == 'GSM')):
+    # clm and slm drift rates are for RL04
+    RL04 = ((DREL == 4) and (DSET == 'GSM'))
+    if RL04:
         # clm and slm drift rates for RL04
         drift_c = np.zeros((LMAX+1, MMAX+1))
         drift_s = np.zeros((LMAX+1, MMAX+1))
@@ -233,14 +235,16 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
             l1 = np.int64(line_contents[1])
             m1 = np.int64(line_contents[2])
             # Reading Drift rates for low degree harmonics
-            drift_c[l1,m1] = np.float64(line_contents[3])
-            drift_s[l1,m1] = np.float64(line_contents[4])
+            # if degree and order are below the truncation limits
+            if RL04 and (l1 <= LMAX) and (m1 <= MMAX):
+                drift_c[l1,m1] = np.float64(line_contents[3])
+                drift_s[l1,m1] = np.float64(line_contents[4])
 
     # Adding drift rates to clm and slm for RL04
     # if drift rates exist at any time, will add to harmonics
     # Will convert the secular rates into a stokes contribution
     # Currently removes 2003.3 to get the temporal average close to 0.
-    if ((DREL == 4) and (DSET == 'GSM')):
+    if RL04:
         # time since 2003.3
         dt = (grace_L2_input['time'] - 2003.3)
         grace_L2_input['clm'][:,:] += dt*drift_c[:,:]
-- 
2.43.0


From ee39fedb9b71c94204c466d85644ccb16f2c73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 054/163] fix: pole tide of Level-2 files truncated below
 degree 2 and order 1

---
 gravity_toolkit/read_GRACE_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_GRACE_harmonics.py b/gravity_toolkit/read_GRACE_harmonics.py
index 94ccfc9..b373d99 100644
--- a/gravity_toolkit/read_GRACE_harmonics.py
+++ b/gravity_toolkit/read_GRACE_harmonics.py
@@ -251,7 +251,7 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
         grace_L2_input['slm'][:,:] += dt*drift_s[:,:]
 
     # Correct Pole Tide following Wahr et al. (2015) 10.1002/2015JB011986
-    if kwargs['POLE_TIDE'] and (DSET == 'GSM'):
+    if kwargs['POLE_TIDE'] and (DSET == 'GSM') and (LMAX >= 2) and (MMAX >= 1):
         # time since 2000.0
         dt = (grace_L2_input['time']-2000.0)
         # CSR and JPL Pole Tide Correction
-- 
2.43.0


From 4abdebcefc546ec42efe63532f2ba9ee43592982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 055/163] fix: reading Swarm dealiasing products

---
 gravity_toolkit/read_gfc_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_gfc_harmonics.py b/gravity_toolkit/read_gfc_harmonics.py
index d344488..17b08fb 100644
--- a/gravity_toolkit/read_gfc_harmonics.py
+++ b/gravity_toolkit/read_gfc_harmonics.py
@@ -178,7 +178,7 @@ def read_gfc_harmonics(input_file, TIDE=None, FLAG='gfc'):
     elif re.match(swarm_model, input_file.name):
         # compile numerical expression operator for parameters from files
         # Swarm: dealiasing products for Swarm data
-        rx = re.compile(swarm_data, re.VERBOSE | re.IGNORECASE)
+        rx = re.compile(swarm_model, re.VERBOSE | re.IGNORECASE)
         # extract parameters from input filename
         PROD,trunc,month,year,SFX = rx.findall(input_file.name).pop()
         # number of days in each month for the calendar year
-- 
2.43.0


From d49d26ddc934115ce827bf0c8f37b34098cd574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 056/163] fix: months of dated gfc gravity models

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index eadf81d..4b35ad7 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -531,7 +531,7 @@ class harmonics(object):
         if kwargs['date']:
             self.time = Ylms['time'].copy()
             # adjust months to fix special cases if necessary
-            self.month = adjust_months(Ylms['month'])
+            self.month = adjust_months(calendar_to_grace(self.time))
         # geophysical parameters of gravity model
         self.GM = np.float64(Ylms['earth_gravity_constant'])
         self.R = np.float64(Ylms['radius'])
-- 
2.43.0


From 925551181d8805df90df1ba6c11b92fcc1f54222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 057/163] fix: maximum order of SHM gravity models

---
 gravity_toolkit/harmonics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 4b35ad7..4cc0d5e 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -559,6 +559,8 @@ class harmonics(object):
         self.case_insensitive_filename(filename)
         # set default keyword arguments
         kwargs.setdefault('verbose',False)
+        # truncate to the maximum order of the object (if set)
+        kwargs.setdefault('MMAX',self.mmax)
         # read data from SHM file
         Ylms = read_GRACE_harmonics(self.filename, self.lmax, **kwargs)
         # Output file information
@@ -571,6 +573,8 @@ class harmonics(object):
         self.month = np.int64(calendar_to_grace(self.time))
         # copy header information for gravity model
         self.header = Ylms['header']
+        # maximum order of gravity model
+        self.mmax = np.max(Ylms['m'])
         # assign degree and order fields
         self.update_dimensions()
         return self
-- 
2.43.0


From 67d6a0e450b4e9fdada1e49d64c75c8de039fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 058/163] fix: assign single dates and values as scalars in SLR
 readers

---
 gravity_toolkit/SLR/C20.py            | 16 ++++++++--------
 gravity_toolkit/SLR/C30.py            |  2 +-
 gravity_toolkit/SLR/C50.py            |  2 +-
 gravity_toolkit/read_SLR_harmonics.py |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 992018f..8944f51 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -330,7 +330,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[2])
@@ -390,7 +390,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                date_conv[t] = gravity_toolkit.time.convert_calendar_decimal(
+                date_conv[t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 C20_input[t] = np.float64(line_contents[2])
@@ -425,16 +425,16 @@ def C20(SLR_file, AOD=True, HEADER=True):
             # there is only one solution for the month
             if (count == 1):
                 i = np.nonzero(mon == dinput['month'][t])
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
             # there is a special solution for the month
             # will the solution flagged with slr_flag
             elif (count == 2):
                 i = np.nonzero((mon == dinput['month'][t]) & slr_flag)
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
 
     # The 'Special Months' (Nov 2011, Dec 2011 and April 2012) with
     # Accelerometer shutoffs make the relation between month number
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 84c2dda..3cd9d3b 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -161,7 +161,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[5])
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index af93dad..53dff90 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -143,7 +143,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[10])
diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 9d596fe..39259b9 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -208,7 +208,7 @@ def read_CSR_monthly_6x1(SLR_file, SCALE=1e-10, HEADER=True):
         Ylms['MJD'][d] = np.mean(np.array(line_contents[5:7],dtype=np.float64))
         # date of the mid-point of the arc given in years
         YY,MM = np.array(line_contents[3:5])
-        Ylms['time'][d] = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
+        Ylms['time'][d], = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
         # add 1 to counter
         count += 1
 
-- 
2.43.0


From 2f05f52f0031a47cf12446c74d5da3dd9404e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 059/163] fix: allow string paths in read_SLR_harmonics

---
 gravity_toolkit/read_SLR_harmonics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 39259b9..6cfb376 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -88,6 +88,7 @@ def read_SLR_harmonics(SLR_file, **kwargs):
     **kwargs: dict
         keyword arguments for input readers
     """
+    SLR_file = pathlib.Path(SLR_file).expanduser().absolute()
     if bool(re.search(r'gsfc_slr_5x5c61s61', SLR_file.name, re.I)):
         return read_GSFC_weekly_6x1(SLR_file, **kwargs)
     elif bool(re.search(r'CSR_Monthly_5x5_Gravity_Harmonics', SLR_file.name, re.I)):
-- 
2.43.0


From 1ef17cfbca227da69b84dce36dc19021d0d0f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 060/163] fix: match complete file names in case insensitive
 searches

---
 gravity_toolkit/geocenter.py | 2 +-
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c30b562..f989048 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -129,7 +129,7 @@ class geocenter(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 4cc0d5e..0a8dadc 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -183,7 +183,7 @@ class harmonics(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index d8b3070..9d4b6db 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -156,7 +156,7 @@ class spatial(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
-- 
2.43.0


From 2f6bf5851bd4f3e004a935588987df2ef995376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 061/163] fix: read SLR geocenter files without AOD1B data when
 it is not removed

---
 gravity_toolkit/geocenter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index f989048..804976e 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -343,12 +343,13 @@ class geocenter(object):
 
         # directory setup for AOD1b data starting with input degree 1 file
         # this will verify that the input paths work
-        base_dir = self.filename.parent.parent
-        self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
-        # check that AOD1B directory exists
-        if not self.directory.exists():
-            msg = f'{str(self.directory)} not found in file system'
-            raise FileNotFoundError(msg)
+        if kwargs['AOD']:
+            base_dir = self.filename.parent.parent
+            self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
+            # check that AOD1B directory exists
+            if not self.directory.exists():
+                msg = f'{str(self.directory)} not found in file system'
+                raise FileNotFoundError(msg)
 
         # Input geocenter file and split lines
         with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From ee13f51d10133c9cadf817e6fa250cf988060803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 062/163] fix: text and length of geocenter objects with single
 and multiple months

---
 gravity_toolkit/geocenter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 804976e..e61a5fc 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -1215,15 +1215,15 @@ class geocenter(object):
         """String representation of the ``geocenter`` object
         """
         properties = ['gravity_toolkit.geocenter']
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
         """Number of months
         """
-        return len(self.month) if np.any(self.month) else 0
+        return np.size(self.month) if np.any(self.month) else 0
 
     def __iter__(self):
         """Iterate over GRACE/GRACE-FO months
-- 
2.43.0


From 7681a8f105a4effd9f90d16155dd4f3f468f9c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 063/163] fix: keep radius and uncertainties when copying
 geocenter objects

---
 gravity_toolkit/geocenter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index e61a5fc..e39cc13 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -793,8 +793,9 @@ class geocenter(object):
         # set default keyword arguments
         kwargs.setdefault('fields',['time','month',
             'C10','C11','S11','eC10','eC11','eS11',
-            'X','Y','Z'])
-        temp = geocenter()
+            'X','Y','Z','X_sigma','Y_sigma','Z_sigma'])
+        temp = geocenter(radius=self.radius)
+        temp.filename = self.filename
         # try to assign variables to self
         for key in kwargs['fields']:
             try:
@@ -1078,7 +1079,7 @@ class geocenter(object):
         indices: int, default Ellipsis
             indices of input ``geocenter`` object to compute mean
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # calculate mean static field
         temp.C10 = np.mean(self.C10[indices])
         temp.C11 = np.mean(self.C11[indices])
@@ -1164,7 +1165,7 @@ class geocenter(object):
         var: float
             scalar value to which the ``geocenter`` object will be multiplied
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         # multiply by a single constant or a time-variable scalar
@@ -1182,7 +1183,7 @@ class geocenter(object):
         power: float
             power to which the ``geocenter`` object will be raised
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         temp.C10 = np.power(self.C10,power)
@@ -1234,7 +1235,7 @@ class geocenter(object):
     def __next__(self):
         """Get the next month of data
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-- 
2.43.0


From f3629cb9c570c04a718975c1d588ee489ab56c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 064/163] fix: assign single replacement values as scalars in
 grace_input_months

---
 gravity_toolkit/grace_input_months.py | 38 +++++++++++++--------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b4cb61d..5bb91de 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -683,8 +683,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C20_input['month'] == grace_month)
             if (count != 0):
                 k, = np.nonzero(C20_input['month'] == grace_month)
-                grace_Ylms['clm'][2,0,i] = np.copy(C20_input['data'][k])
-                grace_Ylms['eclm'][2,0,i] = np.copy(C20_input['error'][k])
+                grace_Ylms['clm'][2,0,i], = np.copy(C20_input['data'][k])
+                grace_Ylms['eclm'][2,0,i], = np.copy(C20_input['error'][k])
 
     # Replace C21/S21 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_21'] in ('CSR','GFZ','GSFC'):
@@ -698,10 +698,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C21_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C21_input['month'] == grace_month)
-                grace_Ylms['clm'][2,1,i] = np.copy(C21_input['C2m'][k])
-                grace_Ylms['slm'][2,1,i] = np.copy(C21_input['S2m'][k])
-                grace_Ylms['eclm'][2,1,i] = np.copy(C21_input['eC2m'][k])
-                grace_Ylms['eslm'][2,1,i] = np.copy(C21_input['eS2m'][k])
+                grace_Ylms['clm'][2,1,i], = np.copy(C21_input['C2m'][k])
+                grace_Ylms['slm'][2,1,i], = np.copy(C21_input['S2m'][k])
+                grace_Ylms['eclm'][2,1,i], = np.copy(C21_input['eC2m'][k])
+                grace_Ylms['eslm'][2,1,i], = np.copy(C21_input['eS2m'][k])
 
     # Replace C22/S22 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_22'] in ('CSR','GSFC'):
@@ -715,10 +715,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C22_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C22_input['month'] == grace_month)
-                grace_Ylms['clm'][2,2,i] = np.copy(C22_input['C2m'][k])
-                grace_Ylms['slm'][2,2,i] = np.copy(C22_input['S2m'][k])
-                grace_Ylms['eclm'][2,2,i] = np.copy(C22_input['eC2m'][k])
-                grace_Ylms['eslm'][2,2,i] = np.copy(C22_input['eS2m'][k])
+                grace_Ylms['clm'][2,2,i], = np.copy(C22_input['C2m'][k])
+                grace_Ylms['slm'][2,2,i], = np.copy(C22_input['S2m'][k])
+                grace_Ylms['eclm'][2,2,i], = np.copy(C22_input['eC2m'][k])
+                grace_Ylms['eslm'][2,2,i], = np.copy(C22_input['eS2m'][k])
 
     # Replace C30 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C30'] in ('CSR','GFZ','GSFC','LARES'):
@@ -732,8 +732,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C30_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C30_input['month'] == grace_month)
-                grace_Ylms['clm'][3,0,i] = np.copy(C30_input['data'][k])
-                grace_Ylms['eclm'][3,0,i] = np.copy(C30_input['error'][k])
+                grace_Ylms['clm'][3,0,i], = np.copy(C30_input['data'][k])
+                grace_Ylms['eclm'][3,0,i], = np.copy(C30_input['error'][k])
 
     # Replace C40 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C40'] in ('CSR','GSFC','LARES'):
@@ -747,8 +747,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C40_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C40_input['month'] == grace_month)
-                grace_Ylms['clm'][4,0,i] = np.copy(C40_input['data'][k])
-                grace_Ylms['eclm'][4,0,i] = np.copy(C40_input['error'][k])
+                grace_Ylms['clm'][4,0,i], = np.copy(C40_input['data'][k])
+                grace_Ylms['eclm'][4,0,i], = np.copy(C40_input['error'][k])
 
     # Replace C50 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C50'] in ('CSR','GSFC','LARES'):
@@ -762,8 +762,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C50_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C50_input['month'] == grace_month)
-                grace_Ylms['clm'][5,0,i] = np.copy(C50_input['data'][k])
-                grace_Ylms['eclm'][5,0,i] = np.copy(C50_input['error'][k])
+                grace_Ylms['clm'][5,0,i], = np.copy(C50_input['data'][k])
+                grace_Ylms['eclm'][5,0,i], = np.copy(C50_input['error'][k])
 
     # Use Degree 1 coefficients
     # Tellus: Tellus Degree 1 (PO.DAAC following Sun et al., 2016)
@@ -799,9 +799,9 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 grace_Ylms['clm'][1,1,i] = np.copy(C11_model[i])
                 grace_Ylms['slm'][1,1,i] = np.copy(S11_model[i])
             else:# using coefficients from data file
-                grace_Ylms['clm'][1,0,i] = np.copy(DEG1_input.C10[k])
-                grace_Ylms['clm'][1,1,i] = np.copy(DEG1_input.C11[k])
-                grace_Ylms['slm'][1,1,i] = np.copy(DEG1_input.S11[k])
+                grace_Ylms['clm'][1,0,i], = np.copy(DEG1_input.C10[k])
+                grace_Ylms['clm'][1,1,i], = np.copy(DEG1_input.C11[k])
+                grace_Ylms['slm'][1,1,i], = np.copy(DEG1_input.S11[k])
 
     # read and add/remove the GAE and GAF atmospheric correction coefficients
     if kwargs['ATM']:
-- 
2.43.0


From b01c48337b3aafa3cb75220770ae1b507c3d73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 065/163] fix: maximum order of zero in grace_input_months

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 5bb91de..673a60b 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -338,7 +338,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         raise FileNotFoundError(str(grace_dir))
 
     # upper bound of spherical harmonic orders (default = LMAX)
-    MMAX = kwargs.get('MMAX') or np.copy(LMAX)
+    MMAX = np.copy(LMAX) if (kwargs['MMAX'] is None) else kwargs['MMAX']
 
     # Range of months from start_mon to end_mon (end_mon+1 to include end_mon)
     # Removing the missing months and months not to consider
-- 
2.43.0


From ee1cf5c071a7a458de0d751c8b50b73fb594bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 066/163] fix: atmospheric corrections with a maximum order
 below the maximum degree

---
 gravity_toolkit/grace_input_months.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 673a60b..0281c40 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -894,8 +894,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
 
     # create output atmospheric corrections to be removed/added to data
     atm_corr = {}
-    atm_corr['clm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
-    atm_corr['slm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
+    atm_corr['clm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
+    atm_corr['slm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
     atm_corr['files'] = sorted(corr_file.values())
     # for each considered date
     for i,grace_month in enumerate(months):
-- 
2.43.0


From 42e36b88c24b6b4f1b6f4e339c789ed2b249c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 067/163] fix: string paths for degree one files in
 grace_input_months

---
 gravity_toolkit/grace_input_months.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 0281c40..932e5b0 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -588,7 +588,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 f'TN-13_GEOC_{PROC}_{DREL}.txt')
             JPL = True
         # read degree one files from JPL GRACE Tellus
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_tellus(DEG1_file,JPL=JPL)
@@ -630,7 +630,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             '{0}_{1}_{2}_{3}.txt'.format(*args))
         # read degree one files from Sutterley and Velicogna (2019)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_UCI(DEG1_file)
@@ -641,7 +641,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             f'gad_gsm.{DREL}.txt')
         # read degree one files from Swenson et al. (2008)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_swenson(DEG1_file)
@@ -653,7 +653,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat')
         # read degree one files from GFZ GravIS
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_gravis(DEG1_file)
-- 
2.43.0


From 45ed3da4ab3c8a3656180586cf17937a5f3889e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 068/163] fix: attribute name of LARES C30 solutions

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 932e5b0..1c749bd 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -499,7 +499,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         # read SLR file
         C30_input = gravity_toolkit.SLR.C30(SLR_file)
         FLAGS.append('_wLARES_C30')
-        attributes['SLR_C30'] = ('CSR LARES', SLR_file.name)
+        attributes['SLR C30'] = ('CSR LARES', SLR_file.name)
     elif (kwargs['SLR_C30'] == 'GFZ'):
         GravIS_file = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
         SLR_file = base_dir.joinpath(GravIS_file)
-- 
2.43.0


From 3f4fe89e861a699ae435b0d21c8f632a1b296d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 069/163] fix: maximum order of GIA models given as MMAX

---
 gravity_toolkit/read_GIA_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index 39da6de..b4601a8 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -719,7 +719,7 @@ class gia(harmonics):
         kwargs.setdefault('verbose',False)
         # catch case where MMAX is entered
         if ('MMAX' in kwargs.keys()):
-            kwargs['mmax'] = np.copy(kwargs['mmax'])
+            kwargs['mmax'] = copy.copy(kwargs['MMAX'])
         # read data from GIA file
         Ylms = read_GIA_model(self.filename, GIA=kwargs['GIA'],
             LMAX=self.lmax, MMAX=kwargs['mmax'])
-- 
2.43.0


From a3f8420449ac83593a03b0c3b9ba64cb8811133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 070/163] fix: weighted regressions with lists of errors and
 without changing the input errors

---
 gravity_toolkit/time_series/piecewise.py | 2 ++
 gravity_toolkit/time_series/regress.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index e234900..ab919d2 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -209,6 +209,8 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         # Weighted Least-Squares fitting
         if (np.ndim(DATA_ERR) == 0):
             raise ValueError('Input DATA_ERR for Weighted Least-Squares')
+        # copy errors to not change the input values
+        DATA_ERR = np.squeeze(np.array(DATA_ERR, dtype=np.float64))
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
diff --git a/gravity_toolkit/time_series/regress.py b/gravity_toolkit/time_series/regress.py
index bca9ecd..ba074a5 100755
--- a/gravity_toolkit/time_series/regress.py
+++ b/gravity_toolkit/time_series/regress.py
@@ -220,6 +220,8 @@ def regress(t_in, d_in, ORDER=1, CYCLES=[0.5,1.0], TERMS=[],
         # Weighted Least-Squares fitting
         if (np.ndim(DATA_ERR) == 0):
             raise ValueError('Input DATA_ERR for Weighted Least-Squares')
+        # copy errors to not change the input values
+        DATA_ERR = np.squeeze(np.array(DATA_ERR, dtype=np.float64))
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
-- 
2.43.0


From a44e2666f2fe43c79f9a8329d6fd099f91403210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 071/163] fix: coefficient errors of piecewise regressions with
 known and equal errors

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index ab919d2..92f2ef6 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -313,7 +313,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         NORMEQ = np.dot(Hinv,np.transpose(DMAT))
         temp_err = np.zeros((n_terms))
         for i in range(0,n_terms):
-            temp_err[i] = np.sum((NORMEQ[i,:]*P_err)**2)
+            temp_err[i] = np.sqrt(np.sum((NORMEQ[i,:]*P_err)**2))
         # Recalculating beta2 error
         beta_err = np.copy(temp_err)
         beta_err[2] = np.sqrt(temp_err[1]**2 + temp_err[2]**2)
-- 
2.43.0


From 9e4f9d3f8de2e97342347e5e69533496598fa5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 072/163] fix: simple model of piecewise regressions with known
 errors

---
 gravity_toolkit/time_series/piecewise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 92f2ef6..2020390 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -302,7 +302,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
 
         return {'beta':beta_out, 'error':beta_err, 'R2':rsquare,
             'R2Adj':rsq_adj, 'WSSE':WSSE, 'AIC':AIC, 'BIC':BIC,
-            'LOGLIK':log_lik, 'model':mod, 'residual':res,
+            'LOGLIK':log_lik, 'model':mod, 'simple':simple, 'residual':res,
             'N':n_terms, 'DOF':nu, 'cov_mat':Hinv}
 
     elif ((not WEIGHT) and (DATA_ERR != 0)):
@@ -323,7 +323,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
 
         return {'beta':beta_out, 'error':beta_err, 'R2':rsquare,
             'R2Adj':rsq_adj, 'MSE':MSE, 'AIC':AIC, 'BIC':BIC,
-            'LOGLIK':log_lik, 'model':mod, 'residual':res,
+            'LOGLIK':log_lik, 'model':mod, 'simple':simple, 'residual':res,
             'N':n_terms, 'DOF':nu, 'cov_mat':Hinv}
     else:
         # STANDARD LEAST-SQUARES CASE
-- 
2.43.0


From d11476ae8df4599555dd75d0d7db8392c0a946a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 073/163] fix: piecewise regressions with break times between
 data points

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 2020390..833b4df 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -192,7 +192,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         DMAT.append(t_in**o)
     # Linear Term 2 (change from linear term1: trend2 = beta1+beta2)
     P_x1 = np.zeros((nmax))
-    P_x1[nco:] = t_in[nco:] - tco
+    P_x1[nco:] = np.maximum(t_in[nco:] - tco, 0.0)
     DMAT.append(P_x1)
     # add cyclical terms (0.5=semi-annual, 1=annual)
     for c in CYCLES:
-- 
2.43.0


From 69fd363cff6bcd5abb43ae21d22746fd713c0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 074/163] fix: design matrix of Savitzky-Golay filters with
 current numpy versions

---
 gravity_toolkit/time_series/savitzky_golay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/savitzky_golay.py b/gravity_toolkit/time_series/savitzky_golay.py
index a95e4a0..ccf8e23 100644
--- a/gravity_toolkit/time_series/savitzky_golay.py
+++ b/gravity_toolkit/time_series/savitzky_golay.py
@@ -123,10 +123,10 @@ def savitzky_golay(t_in, y_in, WINDOW=None, ORDER=2, DERIV=0,
     for n in range(0, (nmax-(2*half_window))):
         yran = y_in[n + np.arange(0, 2*half_window+1)]
         # Vandermonde matrix for the time-series
-        b = np.mat([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
+        b = np.array([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
             for k in range(n, n+2*half_window+1)])
         # compute the pseudoinverse of the design matrix
-        m=np.linalg.pinv(b).A[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
+        m=np.linalg.pinv(b)[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
         # pad the signal at the extremes with values taken from the signal
         firstvals = yran[0] - np.abs(yran[1:half_window+1][::-1] - yran[0])
         lastvals = yran[-1] + np.abs(yran[-half_window-1:-1][::-1] - yran[-1])
-- 
2.43.0


From daf0f7831105045f8c7da8127a4336b4f8615cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 075/163] fix: angular frequencies from temporal frequencies in
 Lomb-Scargle analyses

---
 gravity_toolkit/time_series/lomb_scargle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/lomb_scargle.py b/gravity_toolkit/time_series/lomb_scargle.py
index f24c332..a0cd882 100755
--- a/gravity_toolkit/time_series/lomb_scargle.py
+++ b/gravity_toolkit/time_series/lomb_scargle.py
@@ -116,7 +116,7 @@ def lomb_scargle(t_in, d_in, **kwargs):
     if kwargs['OMEGA']:
         OMEGA = np.atleast_1d(kwargs['OMEGA'])
     elif kwargs['FREQUENCY']:
-        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])/(2.0*np.pi)
+        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])*(2.0*np.pi)
     elif kwargs['PERIOD']:
         OMEGA = (2.0*np.pi)/np.atleast_1d(kwargs['PERIOD'])
     else:
-- 
2.43.0


From 296674ca06a1e49c5b9820901164c302b007d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 076/163] fix: mascon averages of JPL mascons over several
 latitudes

---
 gravity_toolkit/mascons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 2a8f08c..cdf112b 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -160,7 +160,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
-            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J]/nlt)
+            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J])
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-- 
2.43.0


From ade1af09b038c66d76ecc31b79a6617dce8b9394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 077/163] fix: keep mascon center longitudes of the input

---
 gravity_toolkit/mascons.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index cdf112b..dbec6d9 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -63,8 +63,7 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
-    gt180, = np.nonzero(lon_center > 180)
-    lon_center[gt180] -= 360.0
+    lon_center = np.where(lon_center > 180, lon_center - 360.0, lon_center)
     # remove singleton dimensions
     lat = np.squeeze(lat)
     lon = np.squeeze(lon)
@@ -219,8 +218,7 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
-    gt180, = np.nonzero(lon_center > 180)
-    lon_center[gt180] -= 360.0
+    lon_center = np.where(lon_center > 180, lon_center - 360.0, lon_center)
 
     # Define output latitude and longitude grids
     lon = np.arange(-180.0+grid_spacing/2.0,180.0+grid_spacing/2.0,grid_spacing)
-- 
2.43.0


From f3829663558ed4be39e4e8ab2e0ac6a39012a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 078/163] fix: mask JPL mascons without longitudes in regional
 grids

---
 gravity_toolkit/mascons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index dbec6d9..fc022b5 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -155,7 +155,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         # indices for grid points within the mascon
         I, = np.nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
         J, = np.nonzero((lon >= lon_bound[k,0]) & (lon < lon_bound[k,2]))
-        nlt = np.count_nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
+        npt = len(I)*len(J)
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
@@ -163,7 +163,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-        mascon_array['mask'][k] = bool(nlt == 0)
+        mascon_array['mask'][k] = bool(npt == 0)
         # Do a check at the poles to make the lat/lon equal to +/-90/0
         if (np.abs(lat_bound[k,0]) == 90):
             mascon_array['lat'][k] = lat_bound[k,0]
-- 
2.43.0


From 495be1f67afd024da8d80f884ca6b62fce046788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 079/163] fix: mascon averages of grids in other longitude
 conventions

---
 gravity_toolkit/mascons.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index fc022b5..a45effd 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -67,6 +67,8 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     # remove singleton dimensions
     lat = np.squeeze(lat)
     lon = np.squeeze(lon)
+    # convert grid longitudes to -180:180
+    lon = np.where(lon > 180, lon - 360.0, lon)
     # for mascons centered on 180: use 0:360
     alon = np.copy(lon)
     lt0, = np.nonzero(lon < 0)
@@ -143,6 +145,8 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
     # remove singleton dimensions
     lat = np.squeeze(lat)
     lon = np.squeeze(lon)
+    # convert grid longitudes to 0:360
+    lon = np.where(lon < 0, lon + 360.0, lon)
 
     # loop over each mascon bin and average gdata with the cos-lat weights
     # for that bin
-- 
2.43.0


From d0b5484dc638f9552bceeefda52f81d69f477141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 080/163] fix: shift grids already starting at the new base
 longitude

---
 gravity_toolkit/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 36c93f0..38a64f3 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1160,15 +1160,17 @@ def shift_grid(lon0, data, lon, CYCLIC=360.0):
         shift_lon = np.ma.zeros(lon.shape,lon.dtype)
     else:
         shift_lon = np.zeros(lon.shape,lon.dtype)
-    shift_lon[0:-i0] = lon[i0:] - CYCLIC
-    shift_lon[-i0:] = lon[start_idx:i0+start_idx]
+    # number of points to the end of the original grid
+    n0 = len(lon) - i0
+    shift_lon[:n0] = lon[i0:] - CYCLIC
+    shift_lon[n0:] = lon[start_idx:i0+start_idx]
     # shift data values
     if np.ma.isMA(data):
         shift_data = np.ma.zeros(data.shape,data.dtype)
     else:
         shift_data = np.zeros(data.shape,data.dtype)
-    shift_data[:,:-i0] = data[:,i0:]
-    shift_data[:,-i0:] = data[:,start_idx:i0+start_idx]
+    shift_data[:,:n0] = data[:,i0:]
+    shift_data[:,n0:] = data[:,start_idx:i0+start_idx]
     # return the shifted values
     return (shift_data, shift_lon)
 
-- 
2.43.0


From e789a1ea9c57edf2a6ddb0518169d4a742cbe7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 081/163] fix: lower case color models and blank lines in color
 palette tables

---
 gravity_toolkit/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 38a64f3..ff1c813 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -955,13 +955,13 @@ def from_cpt(filename, use_extremes=True, **kwargs):
         # parse non-color data lines
         if model:
             # find color model
-            colorModel = model.group(1)
+            colorModel = model.group(1).upper()
             continue
         elif BFN:
-            flags[BFN.group(0)] = [float(i) for i in rx.findall(line)]
+            flags[BFN.group(0).upper()] = [float(i) for i in rx.findall(line)]
             continue
-        elif re.search(r"#",line):
-            # skip over commented header text
+        elif re.search(r"#",line) or not line.strip():
+            # skip over commented header text and blank lines
             continue
         # find numerical instances within line
         x1,r1,g1,b1,x2,r2,g2,b2 = rx.findall(line)
-- 
2.43.0


From add983db3d8a34adf0033a24aae3c1e031747424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 082/163] fix: data paths from relative pathlib paths

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4c8c046..64c50a3 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -108,7 +108,7 @@ def get_data_path(relpath: list | str | pathlib.Path):
     if isinstance(relpath, list):
         # use *splat operator to extract from list
         return filepath.joinpath(*relpath)
-    elif isinstance(relpath, str):
+    elif isinstance(relpath, (str, pathlib.Path)):
         return filepath.joinpath(relpath)
 
 
-- 
2.43.0


From 1e439d772c330a5b12614b59f307d3c03c4a0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 083/163] fix: timezones in Unix times of formatted dates

---
 gravity_toolkit/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 64c50a3..e0c9764 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -299,13 +299,17 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # account for offsets from UTC within the formatted string
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
     except (TypeError, ValueError):
         return None
     else:
+        # assume UTC if there is no timezone information
+        if parsed_time.tzinfo is None:
+            parsed_time = parsed_time.replace(tzinfo=dateutil.tz.UTC)
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From 17dc61065a026ecec3e8123ba762c3cda0190a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 084/163] fix: endless loop creating unique files in missing
 directories

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index e0c9764..c08f16c 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -402,7 +402,7 @@ def create_unique_file(filename: str | pathlib.Path):
         try:
             # open file descriptor only if the file doesn't exist
             fd = filename.open(mode='xb')
-        except OSError:
+        except FileExistsError:
             pass
         else:
             # return the file descriptor
-- 
2.43.0


From aeae2599c25d8f478e593f87b435b98afd807697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 085/163] fix: CMR searches without a feed of entries

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index c08f16c..524885f 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1717,7 +1717,7 @@ def cmr_filter_json(
     granule_mtimes = []
     # check that there are urls for request
     if ('feed' not in search_results) or ('entry' not in search_results['feed']):
-        return (granule_names,granule_urls)
+        return (granule_names,granule_urls,granule_mtimes)
     # descriptor links for each endpoint
     rel = {}
     rel['data'] = "http://esipfed.org/ns/fedsearch/1.1/data#"
-- 
2.43.0


From 16b1a1e119ca3855c1a8a3b10e5f8b2525a57747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 086/163] fix: keep names, urls and times of CMR granules
 aligned

---
 gravity_toolkit/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 524885f..c7ad1d8 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1724,12 +1724,12 @@ def cmr_filter_json(
     rel['s3'] = "http://esipfed.org/ns/fedsearch/1.1/s3#"
     # iterate over references and get cmr location
     for entry in search_results['feed']['entry']:
-        granule_names.append(entry['title'])
-        granule_mtimes.append(get_unix_time(entry['updated'],
-            format='%Y-%m-%dT%H:%M:%S.%f%z'))
         for link in entry['links']:
             if (link['rel'] == rel[endpoint]):
+                granule_names.append(entry['title'])
                 granule_urls.append(link['href'])
+                granule_mtimes.append(get_unix_time(entry['updated'],
+                    format='%Y-%m-%dT%H:%M:%S.%f%z'))
                 break
     # return the list of urls, granule ids and modified times
     return (granule_names,granule_urls,granule_mtimes)
-- 
2.43.0


From ad20fe767c4230a82ba6c4e39248c6bd88b689e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 087/163] fix: include the last page of CMR search results

---
 gravity_toolkit/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index c7ad1d8..aaf375c 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1904,12 +1904,13 @@ def cmr(
         # read the CMR search as JSON
         search_page = json.loads(response.read().decode('utf8'))
         ids,urls,mtimes = cmr_filter_json(search_page, endpoint=endpoint)
-        if not urls or cmr_search_after is None:
-            break
         # extend lists
         granule_names.extend(ids)
         granule_urls.extend(urls)
         granule_mtimes.extend(mtimes)
+        # check if reached the end of the search results
+        if not urls or cmr_search_after is None:
+            break
     # return the list of granule ids, urls and modification times
     return (granule_names, granule_urls, granule_mtimes)
 
-- 
2.43.0


From 7c1f472b827b6f552140dd716c12286b3ffaa30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 088/163] fix: incomplete http downloads

---
 gravity_toolkit/utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index aaf375c..bc49a04 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -798,6 +798,11 @@ def from_http(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete file was transferred
+        length = response.headers.get('Content-Length')
+        if length and (remote_buffer.tell() != int(length)):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
@@ -1498,6 +1503,11 @@ def from_drive(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete file was transferred
+        length = response.headers.get('Content-Length')
+        if length and (remote_buffer.tell() != int(length)):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
-- 
2.43.0


From 8efb5abb7d513b90ced023cde92278d90575f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 089/163] fix: prompt for passwords after rejected credentials

---
 gravity_toolkit/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index bc49a04..7aafed0 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -948,6 +948,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From b9a03767e06787396bfafbe9745b0908ece3b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 090/163] fix: single grid spacing in convert_harmonics program

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index bc9b97a..f1deed6 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -140,7 +140,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
         MMAX = np.copy(LMAX)
 
     # Grid spacing
-    dlon,dlat = (DDEG,DDEG) if (np.ndim(DDEG) == 0) else (DDEG[0],DDEG[1])
+    dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-- 
2.43.0


From 59da8f7ee41884c7d52702da968515732f2b0a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 091/163] fix: ascii output of convert_harmonics program

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index f1deed6..1926fc2 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -209,7 +209,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
     Ylms.attributes['ROOT'] = copy.copy(attributes)
 
     # outputting data to file
-    Ylms.to_file(OUTPUT_FILE, format=DATAFORM, date=DATE)
+    Ylms.squeeze().to_file(OUTPUT_FILE, format=DATAFORM, date=DATE)
     # change output permissions level to MODE
     OUTPUT_FILE.chmod(mode=MODE)
 
-- 
2.43.0


From 481897a0d5482b56be2f5a00c12e9c791d00af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 092/163] fix: mean file of indexed harmonics in
 combine_harmonics program

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 17df8b3..0510a11 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -182,7 +182,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
     # remove mean file from input Ylms
     if MEAN_FILE:
         mean_Ylms = gravtk.harmonics().from_file(MEAN_FILE,
-            format=DATAFORM, date=False)
+            format=dataform, date=False)
         input_Ylms.subtract(mean_Ylms)
 
     # read arrays of kl, hl, and ll Love Numbers
-- 
2.43.0


From b8ec0f2492870468088bcccffb2972bbd67182c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 093/163] fix: maximum order in combine_harmonics program

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 0510a11..da0f9ff 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -282,7 +282,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,t] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
 
     # outputting data to file
     grid.squeeze().to_file(filename=OUTPUT_FILE, format=dataform,
-- 
2.43.0


From 7532385e87f980c7c510e129317055556349cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 094/163] fix: harmonic transform for grids with fewer
 longitudes than orders

---
 gravity_toolkit/harmonic_summation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index a9f969f..bc741e3 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -186,8 +186,12 @@ def harmonic_transform(clm1, slm1, lon, lat,
 
     # output spatial field from FFT transformation
     s = np.zeros((phimax,thmax))
+    # number of points in the transform (multiple of the longitudes)
+    # to include all orders for coarse spatial grids
+    k = 1 + MMAX//(phimax-1)
+    n = k*(phimax-1)
     # calculate fft for each theta band (over phis with axis=0)
-    s[:-1,:] = 2.0*(phimax-1)*np.fft.ifft(delta_M,n=phimax-1,axis=0).real
+    s[:-1,:] = 2.0*n*np.fft.ifft(delta_M,n=n,axis=0).real[::k,:]
     # complete sphere (values at 360 == values at 0)
     s[-1,:] = s[0,:]
 
-- 
2.43.0


From 976f9fb59d801500e689f8898024363ca5e33a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 095/163] fix: dealiasing means for date files with a single
 month

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index d597675..e5e5e8a 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -171,7 +171,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     formats = ('f','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
-    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype, ndmin=1)
     tdec = date_input['t']
     grace_month = date_input['mon']
     start_yr = date_input['styr']
-- 
2.43.0


From 6128ba2e3c16995a78fab3637231ffdbe5095b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 096/163] fix: oblateness series with all times of the
 three-hourly dealiasing fields

---
 scripts/aod1b_oblateness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aod1b_oblateness.py b/scripts/aod1b_oblateness.py
index 047d2ca..edf71f8 100644
--- a/scripts/aod1b_oblateness.py
+++ b/scripts/aod1b_oblateness.py
@@ -229,7 +229,7 @@ def aod1b_oblateness(base_dir,
                 # close the input file for day
                 fid.close()
                 # write to file for each hour
-                for h in range(4):
+                for h in range(n_time):
                     print(fstr.format(YY,MM,DD,hours[h],C20[h]),file=f)
 
             # close the tar file
-- 
2.43.0


From 57c88553b475279aa48dcd7e1bb4f1c3e99c097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 097/163] fix: find dealiasing geocenter files by the name they
 are written with

---
 gravity_toolkit/geocenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index e39cc13..01d0b9b 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -156,7 +156,7 @@ class geocenter(object):
         """
 
         # full path to AOD geocenter for month (using glo coefficients)
-        granule = f'AOD1B_{release} {product}_{year:4.0f}_{month:02.0f}.txt'
+        granule = f'AOD1B_{release}_{product}_{year:4.0f}_{month:02.0f}.txt'
         AOD1B_file = self.directory.joinpath(granule)
         # check that file exists
         if not AOD1B_file.exists():
-- 
2.43.0


From a4d8bc70fa694af57b35ce72ed9931e55905dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 098/163] fix: dealiasing means for months crossing years

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index e5e5e8a..d45aa2b 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -191,7 +191,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
         # check if GRACE/GRACE-FO month crosses years
         if (start_yr[t] != end_yr[t]):
             # check if start_yr is a Leap Year or Standard Year
-            dpy = gravtk.time.calendar_days(start_yr[t]).sum()
+            dpy = np.int64(gravtk.time.calendar_days(start_yr[t]).sum())
             # list of Julian Days to read from both start and end year
             julian_days_to_read = []
             # add days to read from start and end years
-- 
2.43.0


From a92ef32cb4a59ebe761e5f5542157d6db526fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 099/163] fix: keep a maximum spherical harmonic order of zero
 in the programs

---
 scripts/calc_degree_one.py         | 2 +-
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 scripts/grace_mean_harmonics.py    | 2 +-
 scripts/grace_raster_grids.py      | 2 +-
 scripts/grace_spatial_error.py     | 2 +-
 scripts/grace_spatial_maps.py      | 2 +-
 scripts/mascon_reconstruct.py      | 2 +-
 scripts/monte_carlo_degree_one.py  | 2 +-
 scripts/scale_grace_maps.py        | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index bf0f538..d1ef2d8 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -457,7 +457,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
-    if not MMAX:
+    if MMAX is None:
         MMAX = np.copy(LMAX)
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 48f7dd7..129bb10 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -344,7 +344,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
 
     # Calculating the Gaussian smoothing for radius RAD
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index f3563e2..1cce564 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -215,7 +215,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
     rad_e = factors.rad_e
 
     # input/output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
 
     # Calculating the Gaussian smoothing for radius RAD
diff --git a/scripts/grace_mean_harmonics.py b/scripts/grace_mean_harmonics.py
index 8745640..df9c5af 100644
--- a/scripts/grace_mean_harmonics.py
+++ b/scripts/grace_mean_harmonics.py
@@ -166,7 +166,7 @@ def grace_mean_harmonics(base_dir, PROC, DREL, DSET, LMAX,
     attributes['product_type'] = 'gravity_field'
 
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index af4db8e..fbac82c 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -271,7 +271,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
         gw_str = ''
 
     # flag for spherical harmonic order
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # add attributes for LMAX and MMAX
     attributes['ROOT']['max_degree'] = LMAX
diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index f20672b..0361e6a 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -256,7 +256,7 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         gw_str = ''
 
     # flag for spherical harmonic order
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index ea65903..291194b 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -283,7 +283,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         gw_str = ''
 
     # flag for spherical harmonic order
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/mascon_reconstruct.py b/scripts/mascon_reconstruct.py
index 78ab550..1c5ce6f 100644
--- a/scripts/mascon_reconstruct.py
+++ b/scripts/mascon_reconstruct.py
@@ -169,7 +169,7 @@ def mascon_reconstruct(DSET, LMAX, RAD,
     GIA_Ylms_rate = gravtk.gia(lmax=LMAX).from_GIA(GIA_FILE, GIA=GIA, mmax=MMAX)
     gia_str = f'_{GIA_Ylms_rate.title}' if GIA else ''
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # filter grace coefficients flag
     ds_str = '_FL' if DESTRIPE else ''
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 7ecb2b6..d8c060b 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -376,7 +376,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
-    if not MMAX:
+    if MMAX is None:
         MMAX = np.copy(LMAX)
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 3f29117..b860e10 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -264,7 +264,7 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # output spatial units
     units = 'cmwe'
-- 
2.43.0


From b0e34c079c892f0bd12e12ebae459220583a4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 100/163] fix: open log files of the programs for text

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 7aafed0..26dc9e1 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -401,7 +401,7 @@ def create_unique_file(filename: str | pathlib.Path):
     while counter:
         try:
             # open file descriptor only if the file doesn't exist
-            fd = filename.open(mode='xb')
+            fd = filename.open(mode='x', encoding='utf8')
         except FileExistsError:
             pass
         else:
-- 
2.43.0


From 083bec5e0d372b5fae650f3ffcb0439af9f26f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 101/163] fix: write the log files of the programs

---
 scripts/calc_degree_one.py          | 4 ++--
 scripts/calc_mascon.py              | 4 ++--
 scripts/calc_sensitivity_kernel.py  | 4 ++--
 scripts/dealiasing_global_uplift.py | 4 ++--
 scripts/grace_mean_harmonics.py     | 4 ++--
 scripts/grace_raster_grids.py       | 4 ++--
 scripts/grace_spatial_error.py      | 4 ++--
 scripts/grace_spatial_maps.py       | 4 ++--
 scripts/monte_carlo_degree_one.py   | 4 ++--
 scripts/piecewise_grace_maps.py     | 4 ++--
 scripts/regress_grace_maps.py       | 4 ++--
 scripts/scale_grace_maps.py         | 4 ++--
 12 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index d1ef2d8..5e705a8 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -1353,7 +1353,7 @@ def output_log_file(input_arguments, output_files, n_iter):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -1376,7 +1376,7 @@ def output_error_log_file(input_arguments):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 129bb10..6cdd941 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -727,7 +727,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -747,7 +747,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index 1cce564..d23fcaa 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -474,7 +474,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -494,7 +494,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/dealiasing_global_uplift.py b/scripts/dealiasing_global_uplift.py
index fd6fa23..e2c34e8 100644
--- a/scripts/dealiasing_global_uplift.py
+++ b/scripts/dealiasing_global_uplift.py
@@ -370,7 +370,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -390,7 +390,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_mean_harmonics.py b/scripts/grace_mean_harmonics.py
index df9c5af..b8867af 100644
--- a/scripts/grace_mean_harmonics.py
+++ b/scripts/grace_mean_harmonics.py
@@ -306,7 +306,7 @@ def output_log_file(input_arguments, output_file):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -325,7 +325,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index fbac82c..b9cdfff 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -538,7 +538,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -558,7 +558,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index 0361e6a..3b62578 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -472,7 +472,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -492,7 +492,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index 291194b..ff0029b 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -494,7 +494,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -514,7 +514,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index d8c060b..597b639 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -1151,7 +1151,7 @@ def output_log_file(input_arguments, output_files):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -1173,7 +1173,7 @@ def output_error_log_file(input_arguments):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index f936dc1..d80f049 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -481,7 +481,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -501,7 +501,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 62be313..377b94a 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -473,7 +473,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -493,7 +493,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index b860e10..751c030 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -632,7 +632,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -652,7 +652,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
-- 
2.43.0


From f198361b9070cacd5ef270861982a8815c83b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 102/163] fix: lineage of maps with harmonic files removed

---
 scripts/grace_raster_grids.py | 2 +-
 scripts/grace_spatial_maps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index b9cdfff..8c73f2a 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -363,7 +363,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['ROOT']['lineage'].append(Ylms.name)
+                attributes['ROOT']['lineage'].append(Ylms.filename.name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index ff0029b..7875ccf 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -370,7 +370,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['lineage'].append(Ylms.name)
+                attributes['lineage'].append(Ylms.filename.name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
-- 
2.43.0


From f3ea4fe7b6c93aadde2a5bc8f792ccc8a56fb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 103/163] fix: redistribute removed fields of a single month

---
 scripts/calc_mascon.py        | 6 +++---
 scripts/grace_raster_grids.py | 6 +++---
 scripts/grace_spatial_maps.py | 6 +++---
 scripts/scale_grace_maps.py   | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 6cdd941..6b7837b 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -436,14 +436,14 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
                 # a uniformly distributed cm of water over the ocean
-                ratio = Ylms.clm[0,0,:]/ocean_Ylms.clm[0,0]
+                ratio = Ylms.clm[0,0]/ocean_Ylms.clm[0,0]
                 # for each spherical harmonic
                 for m in range(0,MMAX+1):# MMAX+1 to include MMAX
                     for l in range(m,LMAX+1):# LMAX+1 to include LMAX
                         # remove the ratio*ocean Ylms from Ylms
                         # note: x -= y is equivalent to x = x - y
-                        Ylms.clm[l,m,:] -= ratio*ocean_Ylms.clm[l,m]
-                        Ylms.slm[l,m,:] -= ratio*ocean_Ylms.slm[l,m]
+                        Ylms.clm[l,m] -= ratio*ocean_Ylms.clm[l,m]
+                        Ylms.slm[l,m] -= ratio*ocean_Ylms.slm[l,m]
             # filter removed coefficients
             if DESTRIPE:
                 Ylms = Ylms.destripe()
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index 8c73f2a..92795fe 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -377,14 +377,14 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
                 # a uniformly distributed cm of water over the ocean
-                ratio = Ylms.clm[0,0,:]/ocean_Ylms.clm[0,0]
+                ratio = Ylms.clm[0,0]/ocean_Ylms.clm[0,0]
                 # for each spherical harmonic
                 for m in range(0,MMAX+1):# MMAX+1 to include MMAX
                     for l in range(m,LMAX+1):# LMAX+1 to include LMAX
                         # remove the ratio*ocean Ylms from Ylms
                         # note: x -= y is equivalent to x = x - y
-                        Ylms.clm[l,m,:] -= ratio*ocean_Ylms.clm[l,m]
-                        Ylms.slm[l,m,:] -= ratio*ocean_Ylms.slm[l,m]
+                        Ylms.clm[l,m] -= ratio*ocean_Ylms.clm[l,m]
+                        Ylms.slm[l,m] -= ratio*ocean_Ylms.slm[l,m]
             # filter removed coefficients
             if DESTRIPE:
                 Ylms = Ylms.destripe()
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index 7875ccf..4709ecc 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -384,14 +384,14 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
                 # a uniformly distributed cm of water over the ocean
-                ratio = Ylms.clm[0,0,:]/ocean_Ylms.clm[0,0]
+                ratio = Ylms.clm[0,0]/ocean_Ylms.clm[0,0]
                 # for each spherical harmonic
                 for m in range(0,MMAX+1):# MMAX+1 to include MMAX
                     for l in range(m,LMAX+1):# LMAX+1 to include LMAX
                         # remove the ratio*ocean Ylms from Ylms
                         # note: x -= y is equivalent to x = x - y
-                        Ylms.clm[l,m,:] -= ratio*ocean_Ylms.clm[l,m]
-                        Ylms.slm[l,m,:] -= ratio*ocean_Ylms.slm[l,m]
+                        Ylms.clm[l,m] -= ratio*ocean_Ylms.clm[l,m]
+                        Ylms.slm[l,m] -= ratio*ocean_Ylms.slm[l,m]
             # filter removed coefficients
             if DESTRIPE:
                 Ylms = Ylms.destripe()
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 751c030..c467224 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -387,14 +387,14 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
                 # a uniformly distributed cm of water over the ocean
-                ratio = Ylms.clm[0,0,:]/ocean_Ylms.clm[0,0]
+                ratio = Ylms.clm[0,0]/ocean_Ylms.clm[0,0]
                 # for each spherical harmonic
                 for m in range(0,MMAX+1):# MMAX+1 to include MMAX
                     for l in range(m,LMAX+1):# LMAX+1 to include LMAX
                         # remove the ratio*ocean Ylms from Ylms
                         # note: x -= y is equivalent to x = x - y
-                        Ylms.clm[l,m,:] -= ratio*ocean_Ylms.clm[l,m]
-                        Ylms.slm[l,m,:] -= ratio*ocean_Ylms.slm[l,m]
+                        Ylms.clm[l,m] -= ratio*ocean_Ylms.clm[l,m]
+                        Ylms.slm[l,m] -= ratio*ocean_Ylms.slm[l,m]
             # filter removed coefficients
             if DESTRIPE:
                 Ylms = Ylms.destripe()
-- 
2.43.0


From 6fcd97dec2b3edfb93498c52e8aad2d370784fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 104/163] fix: order in the file names of programs with a
 maximum order of zero

---
 scripts/monte_carlo_degree_one.py | 2 +-
 scripts/piecewise_grace_maps.py   | 2 +-
 scripts/regress_grace_maps.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 597b639..dca275d 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -322,7 +322,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     # delta coefficients flag for monte carlo run
     delta_str = '_monte_carlo'
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    order_str = f'M{MMAX:d}' if MMAX and (MMAX != LMAX) else ''
+    order_str = f'M{MMAX:d}' if (MMAX is not None) and (MMAX != LMAX) else ''
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
     # ocean model string
diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index d80f049..982907b 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -145,7 +145,7 @@ def piecewise_grace_maps(LMAX, RAD,
     suffix = dict(ascii='txt', netCDF4='nc', HDF5='H5')[DATAFORM]
 
     # flag for spherical harmonic order
-    order_str = f'M{MMAX:d}' if MMAX and (MMAX != LMAX) else ''
+    order_str = f'M{MMAX:d}' if (MMAX is not None) and (MMAX != LMAX) else ''
     # Calculating the Gaussian smoothing for radius RAD
     gw_str = f'_r{RAD:0.0f}km' if (RAD != 0) else ''
     # destriped GRACE/GRACE-FO coefficients
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 377b94a..7b9464e 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -144,7 +144,7 @@ def regress_grace_maps(LMAX, RAD,
     suffix = dict(ascii='txt', netCDF4='nc', HDF5='H5')[DATAFORM]
 
     # flag for spherical harmonic order
-    order_str = f'M{MMAX:d}' if MMAX and (MMAX != LMAX) else ''
+    order_str = f'M{MMAX:d}' if (MMAX is not None) and (MMAX != LMAX) else ''
     # Calculating the Gaussian smoothing for radius RAD
     gw_str = f'_r{RAD:0.0f}km' if (RAD != 0) else ''
     # destriped GRACE/GRACE-FO coefficients
-- 
2.43.0


From 7b69ba2f4ea968715a7016115d2c506e5a60c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 105/163] fix: regress ascii maps of non-global grids

---
 scripts/piecewise_grace_maps.py | 5 ++++-
 scripts/regress_grace_maps.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 982907b..c6df206 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -172,6 +172,7 @@ def piecewise_grace_maps(LMAX, RAD,
     # Output Degree Spacing
     dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
     # Output Degree Interval
+    extent = [None,None,None,None]
     if (INTERVAL == 1):
         # (-180:180,90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
@@ -187,6 +188,7 @@ def piecewise_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+        extent = [lon[0],lon[-1],lat[-1],lat[0]]
 
     # input data spatial object
     spatial_list = []
@@ -198,7 +200,8 @@ def piecewise_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat,
+                extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 7b9464e..c3edc46 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -171,6 +171,7 @@ def regress_grace_maps(LMAX, RAD,
     # Output Degree Spacing
     dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
     # Output Degree Interval
+    extent = [None,None,None,None]
     if (INTERVAL == 1):
         # (-180:180,90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
@@ -186,6 +187,7 @@ def regress_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+        extent = [lon[0],lon[-1],lat[-1],lat[0]]
 
     # input data spatial object
     spatial_list = []
@@ -197,7 +199,8 @@ def regress_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat,
+                extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
-- 
2.43.0


From eaeea7100fd09377a950d6d22ed1d6bbcfd9fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 106/163] fix: labels of the regressed terms when tidal
 aliasing periods are entered first

---
 scripts/piecewise_grace_maps.py | 3 +++
 scripts/regress_grace_maps.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index c6df206..9862cdb 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -242,6 +242,9 @@ def piecewise_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # tidal aliasing terms follow the other cyclical terms in the fit
+    alias_periods = np.array(list(tidal_aliasing.values()))/365.25
+    CYCLES = sorted(CYCLES, key=lambda c: np.any(np.isclose(c, alias_periods)))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index c3edc46..e8fab01 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -242,6 +242,9 @@ def regress_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # tidal aliasing terms follow the other cyclical terms in the fit
+    alias_periods = np.array(list(tidal_aliasing.values()))/365.25
+    CYCLES = sorted(CYCLES, key=lambda c: np.any(np.isclose(c, alias_periods)))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
-- 
2.43.0


From cc84373072dad6f02bd09bf5cf7dceaf85ef28f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 107/163] fix: output all regressed cyclical terms

---
 scripts/piecewise_grace_maps.py | 7 +++++++
 scripts/regress_grace_maps.py   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 9862cdb..95f8693 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -264,6 +264,13 @@ def piecewise_grace_maps(LMAX, RAD,
             ph_title['ANN'] = 'Annual Phase'
             fit_longname.extend(['Annual Sine', 'Annual Cosine'])
             unit_suffix.extend(['',''])
+        elif not np.any(np.isclose(c, alias_periods)):
+            coef_str.extend([f'{c:g}YRS',f'{c:g}YRC'])
+            amp_str.append(f'{c:g}YR')
+            amp_title[f'{c:g}YR'] = f'{c:g}-Year Amplitude'
+            ph_title[f'{c:g}YR'] = f'{c:g}-Year Phase'
+            fit_longname.extend([f'{c:g}-Year Sine', f'{c:g}-Year Cosine'])
+            unit_suffix.extend(['',''])
         # check if fitting with tidal aliasing terms
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index e8fab01..34a252d 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -264,6 +264,13 @@ def regress_grace_maps(LMAX, RAD,
             ph_title['ANN'] = 'Annual Phase'
             fit_longname.extend(['Annual Sine', 'Annual Cosine'])
             unit_suffix.extend(['',''])
+        elif not np.any(np.isclose(c, alias_periods)):
+            coef_str.extend([f'{c:g}YRS',f'{c:g}YRC'])
+            amp_str.append(f'{c:g}YR')
+            amp_title[f'{c:g}YR'] = f'{c:g}-Year Amplitude'
+            ph_title[f'{c:g}YR'] = f'{c:g}-Year Phase'
+            fit_longname.extend([f'{c:g}-Year Sine', f'{c:g}-Year Cosine'])
+            unit_suffix.extend(['',''])
         # check if fitting with tidal aliasing terms
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
-- 
2.43.0


From 0d47e5a1652597c7b9a308eba52124763b55c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 108/163] fix: regressions with tidal aliasing periods for time
 series of a single mission

---
 scripts/piecewise_grace_maps.py | 36 ++++++++++++++++++---------------
 scripts/regress_grace_maps.py   | 36 ++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 95f8693..3cccd88 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -275,24 +275,28 @@ def piecewise_grace_maps(LMAX, RAD,
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
                 # terms for tidal aliasing during GRACE and GRACE-FO periods
-                TERMS.extend(gravtk.time_series.aliasing_terms(grid.time,
-                    period=period))
+                terms = gravtk.time_series.aliasing_terms(grid.time,
+                    period=period)
                 # labels for tidal aliasing during GRACE period
-                coef_str.extend([f'{t}SGRC', f'{t}CGRC'])
-                amp_str.append(f'{t}GRC')
-                amp_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Amplitude'
-                ph_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Phase'
-                fit_longname.append(f'{t} Tidal Alias (GRACE) Sine')
-                fit_longname.append(f'{t} Tidal Alias (GRACE) Cosine')
-                unit_suffix.extend(['',''])
+                if np.any(terms[:2]):
+                    TERMS.extend(terms[:2])
+                    coef_str.extend([f'{t}SGRC', f'{t}CGRC'])
+                    amp_str.append(f'{t}GRC')
+                    amp_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Amplitude'
+                    ph_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Phase'
+                    fit_longname.append(f'{t} Tidal Alias (GRACE) Sine')
+                    fit_longname.append(f'{t} Tidal Alias (GRACE) Cosine')
+                    unit_suffix.extend(['',''])
                 # labels for tidal aliasing during GRACE-FO period
-                coef_str.extend([f'{t}SGFO', f'{t}CGFO'])
-                amp_str.append(f'{t}GFO')
-                amp_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Amplitude'
-                ph_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Phase'
-                fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Sine')
-                fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Cosine')
-                unit_suffix.extend(['',''])
+                if np.any(terms[2:]):
+                    TERMS.extend(terms[2:])
+                    coef_str.extend([f'{t}SGFO', f'{t}CGFO'])
+                    amp_str.append(f'{t}GFO')
+                    amp_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Amplitude'
+                    ph_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Phase'
+                    fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Sine')
+                    fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Cosine')
+                    unit_suffix.extend(['',''])
                 # index to remove the original tidal aliasing term
                 term_index.append(i)
     # remove the original tidal aliasing terms
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 34a252d..c493d31 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -275,24 +275,28 @@ def regress_grace_maps(LMAX, RAD,
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
                 # terms for tidal aliasing during GRACE and GRACE-FO periods
-                TERMS.extend(gravtk.time_series.aliasing_terms(grid.time,
-                    period=period))
+                terms = gravtk.time_series.aliasing_terms(grid.time,
+                    period=period)
                 # labels for tidal aliasing during GRACE period
-                coef_str.extend([f'{t}SGRC', f'{t}CGRC'])
-                amp_str.append(f'{t}GRC')
-                amp_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Amplitude'
-                ph_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Phase'
-                fit_longname.append(f'{t} Tidal Alias (GRACE) Sine')
-                fit_longname.append(f'{t} Tidal Alias (GRACE) Cosine')
-                unit_suffix.extend(['',''])
+                if np.any(terms[:2]):
+                    TERMS.extend(terms[:2])
+                    coef_str.extend([f'{t}SGRC', f'{t}CGRC'])
+                    amp_str.append(f'{t}GRC')
+                    amp_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Amplitude'
+                    ph_title[f'{t}GRC'] = f'{t} Tidal Alias (GRACE) Phase'
+                    fit_longname.append(f'{t} Tidal Alias (GRACE) Sine')
+                    fit_longname.append(f'{t} Tidal Alias (GRACE) Cosine')
+                    unit_suffix.extend(['',''])
                 # labels for tidal aliasing during GRACE-FO period
-                coef_str.extend([f'{t}SGFO', f'{t}CGFO'])
-                amp_str.append(f'{t}GFO')
-                amp_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Amplitude'
-                ph_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Phase'
-                fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Sine')
-                fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Cosine')
-                unit_suffix.extend(['',''])
+                if np.any(terms[2:]):
+                    TERMS.extend(terms[2:])
+                    coef_str.extend([f'{t}SGFO', f'{t}CGFO'])
+                    amp_str.append(f'{t}GFO')
+                    amp_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Amplitude'
+                    ph_title[f'{t}GFO'] = f'{t} Tidal Alias (GRACE-FO) Phase'
+                    fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Sine')
+                    fit_longname.append(f'{t} Tidal Alias (GRACE-FO) Cosine')
+                    unit_suffix.extend(['',''])
                 # index to remove the original tidal aliasing term
                 term_index.append(i)
     # remove the original tidal aliasing terms
-- 
2.43.0


From ace0d92f595ca797f28dfa273ce3e397c1a9da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 109/163] fix: labels and terms of the mascon regression
 summaries

---
 scripts/quick_mascon_regress.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/scripts/quick_mascon_regress.py b/scripts/quick_mascon_regress.py
index 2fcad34..c4c1fb1 100755
--- a/scripts/quick_mascon_regress.py
+++ b/scripts/quick_mascon_regress.py
@@ -111,6 +111,9 @@ def run_regress(input_file,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # tidal aliasing terms follow the other cyclical terms in the fit
+    alias_periods = np.array(list(tidal_aliasing.values()))/365.25
+    cycles = sorted(cycles, key=lambda c: np.any(np.isclose(c, alias_periods)))
     # extra terms for tidal aliasing components or custom fits
     terms = []
     term_index = []
@@ -124,20 +127,28 @@ def run_regress(input_file,
             coef_str.extend(['AS','AC'])
             amp_str.append('ANN')
             unit_suffix.extend(['',''])
+        elif not np.any(np.isclose(c, alias_periods)):
+            coef_str.extend([f'{c:g}YRS',f'{c:g}YRC'])
+            amp_str.append(f'{c:g}YR')
+            unit_suffix.extend(['',''])
         # check if fitting with tidal aliasing terms
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
                 # terms for tidal aliasing during GRACE and GRACE-FO periods
-                terms.extend(gravtk.time_series.aliasing_terms(dinput[:,1],
-                    period=period))
+                alias = gravtk.time_series.aliasing_terms(dinput[:,1],
+                    period=period)
                 # labels for tidal aliasing during GRACE period
-                coef_str.extend([f'{t}SGRC', f'{t}CGRC'])
-                amp_str.append(f'{t}GRC')
-                unit_suffix.extend(['',''])
+                if np.any(alias[:2]):
+                    terms.extend(alias[:2])
+                    coef_str.extend([f'{t}SGRC', f'{t}CGRC'])
+                    amp_str.append(f'{t}GRC')
+                    unit_suffix.extend(['',''])
                 # labels for tidal aliasing during GRACE-FO period
-                coef_str.extend([f'{t}SGFO', f'{t}CGFO'])
-                amp_str.append(f'{t}GFO')
-                unit_suffix.extend(['',''])
+                if np.any(alias[2:]):
+                    terms.extend(alias[2:])
+                    coef_str.extend([f'{t}SGFO', f'{t}CGFO'])
+                    amp_str.append(f'{t}GFO')
+                    unit_suffix.extend(['',''])
                 # index to remove the original tidal aliasing term
                 term_index.append(i)
     # remove the original tidal aliasing terms
-- 
2.43.0


From c272d726830db2db2f0931d0a557ba0666f62ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 110/163] fix: number of smoothed points with error harmonics
 read from ascii files

---
 scripts/calc_mascon.py            | 18 +++++++++++-------
 scripts/grace_spatial_error.py    | 20 ++++++++++++--------
 scripts/monte_carlo_degree_one.py | 18 +++++++++++-------
 scripts/scale_grace_maps.py       | 18 +++++++++++-------
 4 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 6b7837b..575bdf1 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -526,6 +526,12 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -537,12 +543,6 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -582,7 +582,11 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (not within ascii files)
+        if (DATAFORM == 'ascii'):
+            nsmth = len(GRACE_Ylms.time) - 2*HFWTH
+        else:
+            nsmth = np.int64(delta_Ylms.month)
 
     # Calculating the number of cos and sin harmonics between LMIN and LMAX
     # taking into account MMAX (if MMAX == LMAX then LMAX-MMAX=0)
diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index 3b62578..aa6c88e 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -313,6 +313,13 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         GRACE_Ylms.month[-1],suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # 365/10/2 = 18.25 (next highest is 19)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -324,13 +331,6 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # 365/10/2 = 18.25 (next highest is 19)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -370,7 +370,11 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (not within ascii files)
+        if (DATAFORM == 'ascii'):
+            nsmth = len(GRACE_Ylms.time) - 2*HFWTH
+        else:
+            nsmth = np.int64(delta_Ylms.month)
 
     # Output spatial data object
     delta = gravtk.spatial()
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index dca275d..b777b8d 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -520,6 +520,12 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         GSM_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GSM_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -531,12 +537,6 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -576,7 +576,11 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (not within ascii files)
+        if (DATAFORM == 'ascii'):
+            nsmth = len(GSM_Ylms.time) - 2*HFWTH
+        else:
+            nsmth = np.int64(delta_Ylms.month)
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index c467224..dc5dbfc 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -410,6 +410,12 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -421,12 +427,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -466,7 +466,11 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (not within ascii files)
+        if (DATAFORM == 'ascii'):
+            nsmth = len(GRACE_Ylms.time) - 2*HFWTH
+        else:
+            nsmth = np.int64(delta_Ylms.month)
 
     # Output spatial data object
     grid = gravtk.spatial()
-- 
2.43.0


From 9639cbe37d99e23363c69808f4d55351b652cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 111/163] fix: scaled maps with harmonic files removed

---
 scripts/scale_grace_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index dc5dbfc..569bd5c 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -324,6 +324,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         POLE_TIDE=POLE_TIDE)
     # create harmonics object from GRACE/GRACE-FO data
     GRACE_Ylms = gravtk.harmonics().from_dict(Ylms)
+    # full path to directory for specific GRACE/GRACE-FO product
+    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     # use a mean file for the static field to remove
     if MEAN_FILE:
         # read data form for input mean file (ascii, netCDF4, HDF5, gfc)
@@ -408,7 +410,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     fargs = (PROC,DREL,DSET,LMAX,order_str,ds_str,atm_str,GRACE_Ylms.month[0],
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
-    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
     # Smoothing Half-Width (CNES is a 10-day solution)
     # All other solutions are monthly solutions (HFWTH for annual = 6)
-- 
2.43.0


From 048b09e5144b69174cb38ccef5838abbe8fe0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 112/163] fix: minimum degree of scaled maps

---
 scripts/scale_grace_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 569bd5c..b761458 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -507,7 +507,7 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,i] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMIN=LMIN, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
         # copy time variables for month
         grid.time[i] = np.copy(Ylms.time)
         grid.month[i] = np.copy(Ylms.month)
-- 
2.43.0


From 5807ee9478ba418effc339812b0a746a1d3d1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 113/163] fix: error maps in ascii format

---
 scripts/grace_spatial_error.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index aa6c88e..0e39077 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -451,6 +451,7 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
 
     # Multiplying by c/s(phi#m) to get spatial maps (lon,lat)
     delta.data = np.sqrt(np.dot(ccos.T,d_cos) + np.dot(ssin.T,d_sin)).T
+    delta.mask = np.zeros((nlat,nlon), dtype=bool)
 
     # output file format
     file_format = '{0}{1}_L{2:d}{3}{4}{5}_ERR_{6:03d}-{7:03d}.{8}'
-- 
2.43.0


From d3d61753384856c07f2fc18da06bb3c50b789b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 114/163] fix: write series of spatial fields to ascii files

---
 gravity_toolkit/spatial.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 9d4b6db..47e6175 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -786,14 +786,15 @@ class spatial(object):
             file_format = '{0:10.4f} {1:10.4f} {2:12.4f} {4:10.4f}'
         else:
             file_format = '{0:10.4f} {1:10.4f} {2:12.4f}'
-        # write to file for each valid latitude and longitude
-        ii,jj = np.nonzero((self.data != self.fill_value) & (~self.mask))
-        for i,j in zip(ii,jj):
-            ln = self.lon[j]
-            lt = self.lat[i]
-            data = self.data[i,j]
-            error = self.error[i,j] if hasattr(self, 'error') else 0.0
-            print(file_format.format(ln,lt,data,error,self.time), file=fid)
+        # write to file for each valid latitude and longitude (and time)
+        valid = (self.data != self.fill_value) & (~self.mask)
+        for indices in zip(*np.nonzero(valid)):
+            ln = self.lon[indices[1]]
+            lt = self.lat[indices[0]]
+            tm = self.time[indices[2]] if (len(indices) == 3) else self.time
+            data = self.data[indices]
+            error = self.error[indices] if hasattr(self, 'error') else 0.0
+            print(file_format.format(ln,lt,data,error,tm), file=fid)
         # close the output file
         fid.close()
 
-- 
2.43.0


From 7bcb8a1000fe3d9a4aa3b828398097449cf8bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 115/163] fix: directory of the errors of scaled maps of
 filtered fields

---
 scripts/scale_grace_maps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index b761458..71af399 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -324,8 +324,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         POLE_TIDE=POLE_TIDE)
     # create harmonics object from GRACE/GRACE-FO data
     GRACE_Ylms = gravtk.harmonics().from_dict(Ylms)
-    # full path to directory for specific GRACE/GRACE-FO product
-    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     # use a mean file for the static field to remove
     if MEAN_FILE:
         # read data form for input mean file (ascii, netCDF4, HDF5, gfc)
@@ -346,6 +344,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     else:
         # using standard GRACE/GRACE-FO harmonics
         ds_str = ''
+    # full path to directory for specific GRACE/GRACE-FO product
+    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
 
     # input GIA spherical harmonic datafiles
     GIA_Ylms_rate = gravtk.gia(lmax=LMAX).from_GIA(GIA_FILE, GIA=GIA, mmax=MMAX)
-- 
2.43.0


From 01f1e6ad37161a1c2327855f73a8c8d5b8d3ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 116/163] fix: error maps with center of mass love numbers

---
 scripts/grace_spatial_error.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index 0e39077..c64c4b8 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -435,11 +435,12 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
     ccos = np.cos(np.dot(m,phi))**2
     ssin = np.sin(np.dot(m,phi))**2
 
-    # truncate delta harmonics to spherical harmonic range
-    Ylms = delta_Ylms.truncate(LMAX, lmin=LMIN, mmax=MMAX)
     # convolve delta harmonics with degree dependent factors
     # smooth harmonics and convert to output units
-    Ylms = Ylms.convolve(dfactor*wt).power(2.0).scale(1.0/nsmth)
+    Ylms = delta_Ylms.convolve(dfactor*wt).power(2.0).scale(1.0/nsmth)
+    # truncate delta harmonics to spherical harmonic range
+    # (factors can be infinite for degrees below LMIN)
+    Ylms = Ylms.truncate(LMAX, lmin=LMIN, mmax=MMAX)
     # Calculate fourier coefficients
     d_cos = np.zeros((MMAX+1, nlat))# [m,th]
     d_sin = np.zeros((MMAX+1, nlat))# [m,th]
-- 
2.43.0


From 641c07b190e6c5a60d86ebe3e76db3411f6198d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 117/163] fix: errors of scaled maps with center of mass love
 numbers

---
 scripts/scale_grace_maps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 71af399..2115830 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -586,11 +586,12 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     ccos = np.cos(np.dot(m,phi))**2
     ssin = np.sin(np.dot(m,phi))**2
 
-    # truncate delta harmonics to spherical harmonic range
-    Ylms = delta_Ylms.truncate(LMAX,lmin=LMIN,mmax=MMAX)
     # convolve delta harmonics with degree dependent factors
     # smooth harmonics and convert to output units
-    Ylms = Ylms.convolve(dfactor*wt).power(2.0).scale(1.0/nsmth)
+    Ylms = delta_Ylms.convolve(dfactor*wt).power(2.0).scale(1.0/nsmth)
+    # truncate delta harmonics to spherical harmonic range
+    # (factors can be infinite for degrees below LMIN)
+    Ylms = Ylms.truncate(LMAX,lmin=LMIN,mmax=MMAX)
     # Calculate fourier coefficients
     d_cos = np.zeros((MMAX+1,nlat))# [m,th]
     d_sin = np.zeros((MMAX+1,nlat))# [m,th]
-- 
2.43.0


From 225032e0eb4f69df85023e545b3beccbed7cb0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 118/163] fix: fit mascon kernels as geoid coefficients

---
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 575bdf1..532582a 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -659,7 +659,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
 
     # Fitting the sensitivity kernel from the input kernel
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index d23fcaa..544e238 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -337,7 +337,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
         inv_fit_factor = np.ones((n_harm))
 
-- 
2.43.0


From ee809ba3156b83d4f7d386a943ae084f07ef0a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 119/163] fix: number of harmonics of mascon fits with minimum
 degrees above the maximum order

---
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 532582a..ccd5bdc 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -590,7 +590,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
 
     # Calculating the number of cos and sin harmonics between LMIN and LMAX
     # taking into account MMAX (if MMAX == LMAX then LMAX-MMAX=0)
-    n_harm=np.int64(LMAX**2 - LMIN**2 + 2*LMAX + 1 - (LMAX-MMAX)**2 - (LMAX-MMAX))
+    n_harm=np.sum(2*np.minimum(np.arange(LMIN,LMAX+1),MMAX) + 1)
 
     # Initialing harmonics for least squares fitting
     # mascon kernel
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index 544e238..1358d3e 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -281,7 +281,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
 
     # Calculating the number of cos and sin harmonics between LMIN and LMAX
     # taking into account MMAX (if MMAX == LMAX then LMAX-MMAX=0)
-    n_harm=np.int64(LMAX**2 - LMIN**2 + 2*LMAX + 1 - (LMAX-MMAX)**2 - (LMAX-MMAX))
+    n_harm=np.sum(2*np.minimum(np.arange(LMIN,LMAX+1),MMAX) + 1)
 
     # Initialing harmonics for least squares fitting
     # mascon kernel
-- 
2.43.0


From bc53be2c962b3668123bf0f40a6e7ac36914a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 120/163] fix: reconstruct mascon time series of a single month

---
 scripts/mascon_reconstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mascon_reconstruct.py b/scripts/mascon_reconstruct.py
index 1c5ce6f..08dc7b2 100644
--- a/scripts/mascon_reconstruct.py
+++ b/scripts/mascon_reconstruct.py
@@ -243,7 +243,8 @@ def mascon_reconstruct(DSET, LMAX, RAD,
         args = (mascon_name,dset_str,gia_str.upper(),atm_str,ocean_str,
             LMAX,order_str,gw_str,ds_str)
         file_input = '{0}{1}{2}{3}{4}_L{5:d}{6}{7}{8}.txt'.format(*args)
-        mascon_data_input = np.loadtxt(OUTPUT_DIRECTORY.joinpath(file_input))
+        mascon_data_input = np.loadtxt(OUTPUT_DIRECTORY.joinpath(file_input),
+            ndmin=2)
 
         # convert mascon time-series from Gt to cmwe
         mascon_sigma = 1e15*mascon_data_input[:,2]/total_area
-- 
2.43.0


From 9a287773eb797c9163f903e7ea7bcbd2a68b7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 121/163] fix: remove reconstructed fields with more months
 than the mascon solution

---
 scripts/calc_mascon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index ccd5bdc..16c50fe 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -466,8 +466,10 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
             # read reconstructed spherical harmonics
             Ylms = gravtk.harmonics().from_file(reconstruct_file,
                 format=DATAFORM)
+            # reduce to GRACE/GRACE-FO months
             # truncate clm and slm matrices to LMAX/MMAX
             # add harmonics object to total
+            Ylms = Ylms.subset(GRACE_Ylms.month)
             construct_Ylms.add(Ylms.truncate(lmax=LMAX, mmax=MMAX))
         # filter reconstructed coefficients
         if DESTRIPE:
-- 
2.43.0


From 477fcad9c3d135cc530e33182d4477ac934e6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 122/163] fix: number of iterations in the log of the degree
 one program

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 5e705a8..e588079 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -1359,7 +1359,7 @@ def output_log_file(input_arguments, output_files, n_iter):
     for arg, value in sorted(vars(input_arguments).items()):
         logging.info(f'{arg}: {value}')
     # print number of iterations used in calculation
-    if arguments.iterative:
+    if input_arguments.iterative:
         logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(n_iter))
     # print output files
     logging.info('\n\nOUTPUT FILES:')
-- 
2.43.0


From 3608c6be307e47e2e6b93538abbf025c34c6b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 123/163] fix: normalized dealiasing coefficients in the degree
 one output

---
 scripts/calc_degree_one.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index e588079..c372e90 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -967,9 +967,9 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     nc['AOD'] = {}
     g1 = fileID.createGroup('AOD')
     g1.description = f'Atmospheric and oceanic dealiasing'
-    gac = GAC.scale(1.0/dfactor[1])
-    for key in gac.fields:
-        var = gac.get(key)
+    # GAC coefficients are already fully normalized
+    for key in GAC.fields:
+        var = GAC.get(key)
         nc['AOD'][key] = g1.createVariable(key, var.dtype,
             ('time',), zlib=True)
         nc['AOD'][key][:] = var[:]
-- 
2.43.0


From 3a7dbd5b748db0b4866e1feed6a4edec98d16e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 124/163] fix: ocean bottom pressure models in the degree one
 program

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index c372e90..a807731 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -620,7 +620,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         # removing the mean of the ecco spherical harmonic coefficients
         OBP_Ylms.mean(apply=True)
         # converting ecco degree 1 harmonics to coefficients of mass
-        OBP = gravtk.geocenter.from_harmonics(OBP_Ylms).scale(dfactor[1])
+        OBP = gravtk.geocenter().from_harmonics(OBP_Ylms).scale(dfactor[1])
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
-- 
2.43.0


From 6c281516acdc5f6d11b153e5164e6a44e1b3d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 125/163] fix: atmospheric corrections with an order limit in
 the degree one program

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index a807731..33efacb 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -595,7 +595,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
         atm_corr = gravtk.read_ecmwf_corrections(base_dir,
-            LMAX, ATM_Ylms.month)
+            LMAX, ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
         # removing the mean of the atmospheric jump correction coefficients
-- 
2.43.0


From 2d379acd7d157867db71c430c9138b8feadffd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 126/163] fix: degree one Love number of zero in the degree one
 program

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 33efacb..fca3571 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -453,7 +453,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     attributes['earth_love_numbers'] = LOVE.citation
     attributes['reference_frame'] = LOVE.reference
     # set gravitational load love number to a specific value
-    if LOVE_K1:
+    if LOVE_K1 is not None:
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
-- 
2.43.0


From 6a46a646ca9f5c66c1e23e8009d0892f7a30f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 127/163] fix: create the output directory of the degree one
 error program

---
 scripts/monte_carlo_degree_one.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index b777b8d..a8a881d 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -359,7 +359,10 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     suffix = dict(ascii='txt', netCDF4='nc', HDF5='H5')
 
     # output directory
+    base_dir = pathlib.Path(base_dir).expanduser().absolute()
     DIRECTORY = base_dir.joinpath('geocenter')
+    # create output directory if non-existent
+    DIRECTORY.mkdir(mode=MODE, parents=True, exist_ok=True)
     # list object of output files for file logs (full path)
     output_files = []
 
-- 
2.43.0


From 0e378398d016415283cd7e4a452cfec487faad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 128/163] fix: number of runs in the log of the degree one
 error program

---
 scripts/monte_carlo_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index a8a881d..6315dd8 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -1164,7 +1164,7 @@ def output_log_file(input_arguments, output_files):
     for arg, value in sorted(vars(input_arguments).items()):
         logging.info(f'{arg}: {value}')
     # print number of monte carlo iterations used in calculation
-    logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(arguments.runs))
+    logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(input_arguments.runs))
     # print output files
     logging.info('\n\nOUTPUT FILES:')
     for f in output_files:
-- 
2.43.0


From 05d462fc9532d241d5895724188322aee811909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 129/163] fix: units of the fields restored to the degree one
 error runs

---
 scripts/monte_carlo_degree_one.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 6315dd8..8b0051b 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -769,9 +769,10 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
                 DMAT, res, rnk, s = scipy.linalg.lstsq(IMAT, (CMAT-GMAT),
                     lapack_driver=SOLVER)
             # save geocenter for iteration and time t after restoring GIA+ATM
-            iteration.C10[t,n_iter] = DMAT[0]+gia.C10[t]+atm.C10[t]
-            iteration.C11[t,n_iter] = DMAT[1]+gia.C11[t]+atm.C11[t]
-            iteration.S11[t,n_iter] = DMAT[2]+gia.S11[t]+atm.S11[t]
+            # converting normalized GIA and ATM coefficients to mass
+            iteration.C10[t,n_iter] = DMAT[0]+(gia.C10[t]+atm.C10[t])*dfactor[1]
+            iteration.C11[t,n_iter] = DMAT[1]+(gia.C11[t]+atm.C11[t])*dfactor[1]
+            iteration.S11[t,n_iter] = DMAT[2]+(gia.S11[t]+atm.S11[t])*dfactor[1]
         # remove mean of each solution for iteration
         iteration.C10[:,n_iter] -= iteration.C10[:,n_iter].mean()
         iteration.C11[:,n_iter] -= iteration.C11[:,n_iter].mean()
-- 
2.43.0


From 0826ea02346247ef86bd9dbe27da02d379777008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 130/163] fix: degree one Love number of zero in the degree one
 error program

---
 scripts/monte_carlo_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 8b0051b..ff01160 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -375,7 +375,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     attributes['earth_love_numbers'] = LOVE.citation
     attributes['reference_frame'] = LOVE.reference
     # set gravitational load love number to a specific value
-    if LOVE_K1:
+    if LOVE_K1 is not None:
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
-- 
2.43.0


From 995aa2d1888079e66bc725c124376e71599c1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 131/163] fix: atmospheric corrections with an order limit in
 the degree one error program

---
 scripts/monte_carlo_degree_one.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index ff01160..fe35ff7 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -498,7 +498,8 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     ATM_Ylms.time[:] = np.copy(GSM_Ylms.time)
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
-        atm_corr = gravtk.read_ecmwf_corrections(base_dir,LMAX,ATM_Ylms.month)
+        atm_corr = gravtk.read_ecmwf_corrections(base_dir,
+            LMAX, ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
         # removing the mean of the atmospheric jump correction coefficients
-- 
2.43.0


From 683e3dded0fbb6e5acbfd17f6bf0d465e8fd2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:15 +0000
Subject: [PATCH 132/163] fix: cells of the raster grids within the output
 bounds

---
 scripts/grace_raster_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index 92795fe..07a4cba 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -462,8 +462,8 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
     dx,dy = np.broadcast_to(np.atleast_1d(SPACING),(2,))
     xmin,xmax,ymin,ymax = np.copy(BOUNDS)
     # create x and y from spacing and bounds
-    output['x'] = np.arange(xmin + dx/2.0, xmax + dx, dx)
-    output['y'] = np.arange(ymin + dx/2.0, ymax + dy, dy)
+    output['x'] = np.arange(xmin + dx/2.0, xmax, dx)
+    output['y'] = np.arange(ymin + dy/2.0, ymax, dy)
     ny,nx = (len(output['y']),len(output['x']))
     gridx, gridy = np.meshgrid(output['x'],output['y'])
     gridlon, gridlat = transformer.transform(gridx, gridy)
-- 
2.43.0


From 9b03d9149cc3a91a908a098e5a7b5f20606b7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 133/163] fix: clenshaw summation of coefficients with a
 limited order

---
 gravity_toolkit/clenshaw_summation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/clenshaw_summation.py b/gravity_toolkit/clenshaw_summation.py
index 19a9b68..f549ce4 100644
--- a/gravity_toolkit/clenshaw_summation.py
+++ b/gravity_toolkit/clenshaw_summation.py
@@ -156,7 +156,9 @@ def clenshaw_summation(clm, slm, lon, lat,
 
     # calculate arrays for clenshaw summations over colatitudes
     s_m_c = np.zeros((npts,LMAX*2+2))
-    for m in range(LMAX, -1, -1):
+    # maximum order of the coefficients (orders above are zero)
+    MMAX = np.minimum(LMAX, np.shape(clm)[1] - 1)
+    for m in range(MMAX, -1, -1):
         # convolve harmonics with unit factors and smoothing
         s_m_c[:,2*m:2*m+2] = clenshaw_s_m(t, dfactor*wl, m, clm, slm,
             LMAX, ASTYPE=ASTYPE, SCALE=SCALE)
-- 
2.43.0


From 2a11b84a2b8cd78e64287e9f2fc8f03d0bf81e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 134/163] fix: raster grids in the center of mass frame

---
 scripts/grace_raster_grids.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index 07a4cba..e337046 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -335,8 +335,10 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
         FILE_PREFIX = '{0}_{1}_{2}{3}{4}_'.format(*fargs)
 
     # read Land-Sea Mask and convert to spherical harmonics
+    # the extent of the land is independent of the elastic response
+    rigid = tuple(np.zeros((LMAX+1)) for _ in range(3))
     land_Ylms = gravtk.land_stokes(LANDMASK, LMAX,
-        MMAX=MMAX, LOVE=LOVE)
+        MMAX=MMAX, LOVE=rigid)
     # Read Ocean function and convert to Ylms for redistribution
     if REDISTRIBUTE_REMOVED:
         # read Land-Sea Mask and convert to spherical harmonics
@@ -415,6 +417,10 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
     # 4: micGal, microGal gravity perturbations
     # 5: mbar, millibars equivalent surface pressure
     units = gravtk.units.bycode(UNITS)
+    # degree dependent factors for output units (from minimum degree LMIN)
+    dfactor = np.copy(factors.harmonic(*LOVE).get(units))
+    if LMIN:
+        dfactor[:LMIN] = 0.0
     # output spatial units and descriptive units longname
     units_name, units_longname = gravtk.units.get_attributes(units)
     # add attributes for earth parameters
@@ -480,7 +486,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
     THRESHOLD = 0.025
     mask = gravtk.clenshaw_summation(land_Ylms.clm, land_Ylms.slm,
         gridlon.flatten(), latitude_geocentric.flatten(), RAD=2*RAD,
-        UNITS=1, LMAX=LMAX, LOVE=LOVE)
+        UNITS=1, LMAX=LMAX, LOVE=rigid)
     ii,jj = np.nonzero(mask.reshape(ny,nx) > THRESHOLD)
 
     # output gridded raster data
@@ -504,7 +510,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # convert spherical harmonics to output raster grid
         output['z'].data[ii,jj,i] = gravtk.clenshaw_summation(
             Ylms.clm, Ylms.slm, gridlon[ii,jj], latitude_geocentric[ii,jj],
-            RAD=RAD, UNITS=units, LMAX=LMAX, LOVE=LOVE)
+            RAD=RAD, UNITS=dfactor, LMAX=LMAX, LOVE=LOVE)
         output['z'].mask[ii,jj,i] = False
         # copy time variables for month
         output['time'][i] = np.copy(Ylms.time)
-- 
2.43.0


From 8d21afcf4928bf55946d9278966d9bbf5148ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 135/163] fix: monthly values in the geocenter plots

---
 scripts/geocenter_compare_tellus.py     | 6 +++---
 scripts/geocenter_ocean_models.py       | 2 +-
 scripts/geocenter_processing_centers.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index 992df24..e9b0e64 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -97,7 +97,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
@@ -123,7 +123,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
                 for i,m in enumerate(months):
                     valid = np.count_nonzero(DEG1.month == m)
                     if valid:
-                        mm, = np.nonzero(DEG1.month == m)
+                        mm, = np.flatnonzero(DEG1.month == m)
                         tdec[i] = DEG1.time[mm]
                         data[i] = val[mm]
                 # plot all dates
@@ -149,7 +149,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index cbbeb7b..c6fa972 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -95,7 +95,7 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_processing_centers.py b/scripts/geocenter_processing_centers.py
index 252c9d0..ab17e8b 100644
--- a/scripts/geocenter_processing_centers.py
+++ b/scripts/geocenter_processing_centers.py
@@ -107,7 +107,7 @@ def geocenter_processing_centers(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
-- 
2.43.0


From 2b79d79f879fca0d7852e3a23e14156ee974063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 136/163] fix: monthly values in the mascon plots

---
 scripts/quick_mascon_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index a2fc933..154068e 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -133,7 +133,7 @@ def run_plot(i, input_file,
         for t,m in enumerate(months):
             valid = np.count_nonzero(dinput[:,0] == m)
             if valid:
-                mm, = np.nonzero(dinput[:,0] == m)
+                mm, = np.flatnonzero(dinput[:,0] == m)
                 tdec[t] = dinput[mm,1]
                 data[t] = dinput[mm,2] - dinput[0,2]
                 if error:
-- 
2.43.0


From d7cbcf0722a8094364b5e06c11efc3455114cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 137/163] fix: repeated figures in the geocenter plots

---
 scripts/geocenter_compare_tellus.py     | 2 +-
 scripts/geocenter_monte_carlo.py        | 2 +-
 scripts/geocenter_ocean_models.py       | 2 +-
 scripts/geocenter_processing_centers.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index e9b0e64..8b870ed 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -72,7 +72,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
     for k,pr in enumerate(PROC):
         # 3 row plot (C10, C11 and S11)
         ax = {}
-        fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,ncols=3,
+        fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,clear=True,ncols=3,
             sharey=True,figsize=(9,4))
         # additionally plot GFZ with SLR replaced pole tide
         if (pr == 'GFZwPT'):
diff --git a/scripts/geocenter_monte_carlo.py b/scripts/geocenter_monte_carlo.py
index 925627a..412bb7f 100644
--- a/scripts/geocenter_monte_carlo.py
+++ b/scripts/geocenter_monte_carlo.py
@@ -68,7 +68,7 @@ def geocenter_monte_carlo(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
 
     # 3 row plot (C10, C11 and S11)
     ax = {}
-    fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,ncols=3,sharey=True,figsize=(9,4))
+    fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,clear=True,ncols=3,sharey=True,figsize=(9,4))
 
     # read geocenter file for processing center and model
     fargs = (PROC,DREL,model_str,input_flag,gia_str,delta_str,ds_str)
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index c6fa972..2569741 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -75,7 +75,7 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
 
     # 3 row plot (C10, C11 and S11)
     ax = {}
-    fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,ncols=3,sharey=True,figsize=(9,4))
+    fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,clear=True,ncols=3,sharey=True,figsize=(9,4))
     # plot geocenter estimates for each processing center
     for k,mdl in enumerate(MODEL):
         # read geocenter file for processing center and model
diff --git a/scripts/geocenter_processing_centers.py b/scripts/geocenter_processing_centers.py
index ab17e8b..9000c7e 100644
--- a/scripts/geocenter_processing_centers.py
+++ b/scripts/geocenter_processing_centers.py
@@ -80,7 +80,7 @@ def geocenter_processing_centers(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
 
     # 3 row plot (C10, C11 and S11)
     ax = {}
-    fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,ncols=3,sharey=True,figsize=(9,4))
+    fig,(ax[0],ax[1],ax[2])=plt.subplots(num=1,clear=True,ncols=3,sharey=True,figsize=(9,4))
     # plot geocenter estimates for each processing center
     for k,pr in enumerate(PROC):
         # additionally plot GFZ with SLR replaced pole tide
-- 
2.43.0


From 19063d4fdb19cf2d2541c1041dcd4d509d3b7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 138/163] fix: output files of individual mascon plots

---
 scripts/quick_mascon_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index 154068e..8d21f61 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -251,7 +251,8 @@ def main():
         # for each figure number
         for num in plt.get_fignums():
             fig = plt.figure(num)
-            output = f'{args.output_file.stem}_{num}{args.output_file.suffix}'
+            output = args.output_file.with_name(
+                f'{args.output_file.stem}_{num}{args.output_file.suffix}')
             # save the figure file
             fig.savefig(output,
                 metadata={'Title':pathlib.Path(sys.argv[0]).name},
-- 
2.43.0


From 956ecda530a289e2008d2f9bc3e5bb8da517dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 139/163] fix: mascon plots of time series from a single
 mission

---
 scripts/quick_mascon_plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index 8d21f61..3dc97a3 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -105,7 +105,9 @@ def run_plot(i, input_file,
     print(input_file.name)
     dinput = np.loadtxt(input_file, skiprows=header)
     # calculate regression
-    TERMS = gravtk.time_series.aliasing_terms(dinput[:,1])
+    # (aliasing terms for the missions within the time series)
+    TERMS = [term for term in gravtk.time_series.aliasing_terms(dinput[:,1])
+        if np.any(term)]
     x1 = gravtk.time_series.regress(dinput[:,1],dinput[:,2],ORDER=1,
         CYCLES=[0.5,1.0], TERMS=TERMS)
     x2 = gravtk.time_series.regress(dinput[:,1],dinput[:,2],ORDER=2,
-- 
2.43.0


From 53c3929aa4c8a036c7523a10d7eb1bb1bb6586c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 140/163] fix: mascon plots of time series without the mission
 gap

---
 scripts/quick_mascon_plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index 3dc97a3..6c68e03 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -157,7 +157,9 @@ def run_plot(i, input_file,
         plt.fill_between(tdec, data-err, y2=data+err,
             color=l.get_color(), alpha=0.25, zorder=zorder)
     # vertical lines for end of the GRACE mission and start of GRACE-FO
-    if monthly & ((i == 0) | individual):
+    # (if the time series extends over both missions)
+    gap = np.isin([186, 198], dinput[:,0]).all()
+    if monthly & gap & ((i == 0) | individual):
         jj, = np.flatnonzero(dinput[:,0] == 186)
         kk, = np.flatnonzero(dinput[:,0] == 198)
         vs = plt.gca().axvspan(dinput[jj,1],dinput[kk,1],
-- 
2.43.0


From ccf43313d91928ee8fcfbda3a28ee55a88c3ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 141/163] fix: CNES sync program without a log file

---
 scripts/cnes_grace_sync.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/cnes_grace_sync.py b/scripts/cnes_grace_sync.py
index 00232e1..f0b2a92 100755
--- a/scripts/cnes_grace_sync.py
+++ b/scripts/cnes_grace_sync.py
@@ -179,6 +179,7 @@ def cnes_grace_sync(DIRECTORY, DREL=[], TIMEOUT=None, LOG=False,
         logging.info(f'CNES Sync Log ({today})')
     else:
         # standard output (terminal output)
+        fid1 = sys.stdout
         logging.basicConfig(level=logging.INFO)
 
     # DATA RELEASES (RL01, RL02, RL03, RL04)
-- 
2.43.0


From 6079c53f1839866dc8b56fe89a12106de3d5662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 142/163] fix: incomplete transfers in the sync programs

---
 scripts/esa_costg_swarm_sync.py    |  4 +++-
 scripts/gfz_icgem_costg_ftp.py     |  6 +++++-
 scripts/gfz_isdc_dealiasing_ftp.py | 14 +++++++++++---
 scripts/gfz_isdc_grace_ftp.py      |  6 +++++-
 scripts/itsg_graz_grace_sync.py    |  9 ++++-----
 scripts/podaac_cumulus.py          | 17 ++++++++---------
 6 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/scripts/esa_costg_swarm_sync.py b/scripts/esa_costg_swarm_sync.py
index 2f9a696..7d06409 100644
--- a/scripts/esa_costg_swarm_sync.py
+++ b/scripts/esa_costg_swarm_sync.py
@@ -204,9 +204,11 @@ def http_pull_file(remote_file, remote_mtime, local_file, TIMEOUT=120,
                 request = gravtk.utilities.urllib2.Request(remote_file)
                 response = gravtk.utilities.urllib2.urlopen(request,
                     timeout=TIMEOUT)
+                # retrieve complete remote file contents
+                contents = response.read()
                 # copy remote file contents to local file
                 with local_file.open(mode='wb') as f:
-                    shutil.copyfileobj(response, f, CHUNK)
+                    f.write(contents)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_icgem_costg_ftp.py b/scripts/gfz_icgem_costg_ftp.py
index 9b7b0e8..c318cc3 100644
--- a/scripts/gfz_icgem_costg_ftp.py
+++ b/scripts/gfz_icgem_costg_ftp.py
@@ -49,6 +49,7 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import time
 import ftplib
@@ -213,9 +214,12 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
             else:
                 # path to remote file
                 remote_file = posixpath.join(*remote_path[1:])
+                # retrieve complete remote file contents
+                remote_buffer = io.BytesIO()
+                ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
                 # copy remote file contents to local file
                 with local_file.open(mode='wb') as f:
-                    ftp.retrbinary(f'RETR {remote_file}', f.write)
+                    f.write(remote_buffer.getvalue())
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_isdc_dealiasing_ftp.py b/scripts/gfz_isdc_dealiasing_ftp.py
index 73394d0..9a70e3b 100644
--- a/scripts/gfz_isdc_dealiasing_ftp.py
+++ b/scripts/gfz_isdc_dealiasing_ftp.py
@@ -50,6 +50,7 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import time
 import ftplib
@@ -121,7 +122,7 @@ def gfz_isdc_dealiasing_ftp(base_dir, DREL, YEAR=None, MONTHS=None, TAR=False,
             # if compressing into monthly tar files
             if TAR and (file_count > 0) and (TEST or CLOBBER):
                 # copy each gzip file and store within monthly tar files
-                tar = tarfile.open(name=local_tar_file, mode='w:gz')
+                members = []
                 for fi,remote_mtime in zip(remote_files,remote_mtimes):
                     # remote version of each input file
                     remote = [ftp.host,'grace','Level-1B','GFZ','AOD',DREL,Y,fi]
@@ -129,10 +130,14 @@ def gfz_isdc_dealiasing_ftp(base_dir, DREL, YEAR=None, MONTHS=None, TAR=False,
                     # retrieve bytes from remote file
                     remote_buffer = gravtk.utilities.from_ftp(remote,
                         timeout=TIMEOUT)
-                    # add file to tar
+                    # tar information for file
                     tar_info = tarfile.TarInfo(name=fi)
                     tar_info.mtime = remote_mtime
                     tar_info.size = remote_buffer.getbuffer().nbytes
+                    members.append((tar_info, remote_buffer))
+                # add complete set of files to tar
+                tar = tarfile.open(name=local_tar_file, mode='w:gz')
+                for tar_info,remote_buffer in members:
                     tar.addfile(tarinfo=tar_info, fileobj=remote_buffer)
                 # close tar file and set permissions level to MODE
                 tar.close()
@@ -181,9 +186,12 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
         remote_ftp_url = posixpath.join('ftp://',*remote_path)
         logging.info(f'{remote_ftp_url} -->')
         logging.info(f'\t{local_file}{OVERWRITE}\n')
+        # retrieve complete remote file contents
+        remote_buffer = io.BytesIO()
+        ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
         # copy remote file contents to local file
         with local_file.open(mode='wb') as f:
-            ftp.retrbinary(f'RETR {remote_file}', f.write)
+            f.write(remote_buffer.getvalue())
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_isdc_grace_ftp.py b/scripts/gfz_isdc_grace_ftp.py
index f8a9187..9233901 100644
--- a/scripts/gfz_isdc_grace_ftp.py
+++ b/scripts/gfz_isdc_grace_ftp.py
@@ -67,6 +67,7 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import copy
 import time
@@ -334,9 +335,12 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
             else:
                 # path to remote file
                 remote_file = posixpath.join(*remote_path[1:])
+                # retrieve complete remote file contents
+                remote_buffer = io.BytesIO()
+                ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
                 # copy remote file contents to local file
                 with local_file.open(mode='wb') as f:
-                    ftp.retrbinary(f'RETR {remote_file}', f.write)
+                    f.write(remote_buffer.getvalue())
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/itsg_graz_grace_sync.py b/scripts/itsg_graz_grace_sync.py
index c765a4c..fbdcba2 100755
--- a/scripts/itsg_graz_grace_sync.py
+++ b/scripts/itsg_graz_grace_sync.py
@@ -52,7 +52,6 @@ import sys
 import os
 import re
 import time
-import shutil
 import logging
 import pathlib
 import argparse
@@ -203,12 +202,12 @@ def http_pull_file(remote_file,remote_mtime,local_file,
             request = gravtk.utilities.urllib2.Request(remote_file)
             response = gravtk.utilities.urllib2.urlopen(request,
                 timeout=TIMEOUT)
-            # chunked transfer encoding size
-            CHUNK = 16 * 1024
-            # copy contents to local file using chunked transfer encoding
+            # retrieve complete remote file contents
+            contents = response.read()
+            # copy contents to local file
             # transfer should work properly with ascii and binary data formats
             with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response, f, CHUNK)
+                f.write(contents)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/podaac_cumulus.py b/scripts/podaac_cumulus.py
index 8942606..ba32495 100644
--- a/scripts/podaac_cumulus.py
+++ b/scripts/podaac_cumulus.py
@@ -76,7 +76,6 @@ import os
 import re
 import gzip
 import time
-import shutil
 import logging
 import pathlib
 import argparse
@@ -322,21 +321,21 @@ def http_pull_file(remote_file, remote_mtime, local_file,
         # Printing files transferred
         logging.info(f'{remote_file} -->')
         logging.info(f'\t{str(local_file)}{OVERWRITE}\n')
-        # chunked transfer encoding size
-        CHUNK = 16 * 1024
         # Create and submit request.
         # There are a range of exceptions that can be thrown here
         # including HTTPError and URLError.
         request = gravtk.utilities.urllib2.Request(remote_file)
         response = gravtk.utilities.urllib2.urlopen(request,
             timeout=TIMEOUT)
+        # retrieve complete remote file contents
+        contents = response.read()
         # copy remote file contents to local file
         if GZIP:
             with gzip.GzipFile(local_file, 'wb', 9, None, remote_mtime) as f:
-                shutil.copyfileobj(response, f)
+                f.write(contents)
         else:
             with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response, f, CHUNK)
+                f.write(contents)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
@@ -365,15 +364,15 @@ def s3_pull_file(response, remote_mtime, local_file,
     if TEST or CLOBBER:
         # Printing files transferred
         logging.info(f'{str(local_file)}{OVERWRITE}')
-        # chunked transfer encoding size
-        CHUNK = 16 * 1024
+        # retrieve complete remote file contents
+        contents = response['Body'].read()
         # copy remote file contents to local file
         if GZIP:
             with gzip.GzipFile(local_file, 'wb', 9, None, remote_mtime) as f:
-                shutil.copyfileobj(response['Body'], f)
+                f.write(contents)
         else:
             with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response['Body'], f, CHUNK)
+                f.write(contents)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
-- 
2.43.0


From cc43f623d3c414d4a04e1fe60d39fd7956db6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 143/163] fix: older data releases in the GFZ ISDC sync program

---
 scripts/gfz_isdc_grace_ftp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/gfz_isdc_grace_ftp.py b/scripts/gfz_isdc_grace_ftp.py
index 9233901..6a851e7 100644
--- a/scripts/gfz_isdc_grace_ftp.py
+++ b/scripts/gfz_isdc_grace_ftp.py
@@ -240,6 +240,9 @@ def gfz_isdc_grace_ftp(DIRECTORY, PROC=[], DREL=[], VERSION=[],
                 grace_files = []
                 # for each satellite mission (grace, grace-fo)
                 for i,mi in enumerate(['grace','grace-fo']):
+                    # GRACE-FO products are only available for RL06
+                    if (mi == 'grace-fo') and (rl in ('RL04','RL05')):
+                        continue
                     # modifiers for intermediate data releases
                     if (int(VERSION[i]) > 0):
                         drel_str = f'{rl}.{VERSION[i]}'
-- 
2.43.0


From bb6c63fd70baea3673ce012e605bac39b4e89b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 144/163] fix: file name pattern for dealiasing products of
 older releases

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 26dc9e1..9bf4ab3 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -2124,7 +2124,7 @@ def compile_regex_pattern(
         # CNES: use products in standard format
         args = (DSET,)
         pattern = r'{0}-2_\d+-\d+_\d+_GRGS_([a-zA-Z0-9_\-]+)(\.txt)?(\.gz)?$'
-    elif mission is not None:
+    elif (mission is not None) and (DREL not in ('RL04','RL05')):
         # deliasing products with mission listed
         args = (DSET, mission)
         pattern = r'{0}-2_([a-zA-Z0-9_\-]+)_{1}_([a-zA-Z0-9_\-]+)(\.gz)?$'
-- 
2.43.0


From 9bfec0f86b3efe96c549beacb8cafe5581ff8f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:52 +0000
Subject: [PATCH 145/163] fix: attributes of renamed variables in harmonics
 files

---
 gravity_toolkit/harmonics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 0a8dadc..098cff8 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -857,7 +857,7 @@ class harmonics(object):
                 kwargs['field_mapping']['time'] = 'time'
                 kwargs['field_mapping']['month'] = kwargs['months_name']
         # create attributes dictionary for output variables
-        if not all(key in kwargs['attributes'] for key in kwargs['field_mapping']):
+        if not all(key in kwargs['attributes'] for key in kwargs['field_mapping'].values()):
             # Defining attributes for degree and order
             kwargs['attributes'][kwargs['field_mapping']['l']] = {}
             kwargs['attributes'][kwargs['field_mapping']['l']]['long_name'] = 'spherical_harmonic_degree'
@@ -1004,7 +1004,7 @@ class harmonics(object):
                 kwargs['field_mapping']['time'] = 'time'
                 kwargs['field_mapping']['month'] = kwargs['months_name']
         # create attributes dictionary for output variables
-        if not all(key in kwargs['attributes'] for key in kwargs['field_mapping']):
+        if not all(key in kwargs['attributes'] for key in kwargs['field_mapping'].values()):
             # Defining attributes for degree and order
             kwargs['attributes'][kwargs['field_mapping']['l']] = {}
             kwargs['attributes'][kwargs['field_mapping']['l']]['long_name'] = 'spherical_harmonic_degree'
-- 
2.43.0


From 8527ff2ac36eed537f31cebfc472466ec77d82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 146/163] fix: processing center in maximum degree of notebook
 widgets

---
 gravity_toolkit/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index ff1c813..89bbeda 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -427,13 +427,13 @@ class widgets:
     def set_max_degree(self, sender):
         """function for setting max degree of a product
         """
-        if (self.center == 'CNES'):
+        if (self.center.value == 'CNES'):
             LMAX = dict(RL01=50,RL02=50,RL03=80,RL04=90,RL05=90)
-        elif (self.center in ('CSR','JPL')):
+        elif (self.center.value in ('CSR','JPL')):
             # CSR RL04/5/6 at LMAX 60
             # JPL RL04/5/6 at LMAX 60
             LMAX = dict(RL04=60,RL05=60,RL06=60)
-        elif (self.center == 'GFZ'):
+        elif (self.center.value == 'GFZ'):
             # GFZ RL04/5 at LMAX 90
             # GFZ RL06 at LMAX 60
             LMAX = dict(RL04=90,RL05=90,RL06=60)
-- 
2.43.0


From 9f4947fcf360af7383097e6989e98382394314c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 147/163] fix: pole tide default follows the data product in
 notebook widgets

---
 gravity_toolkit/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 89bbeda..2a547da 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -419,7 +419,7 @@ class widgets:
         self.release.observe(self.set_pole_tide)
         self.release.observe(self.set_atm_corr)
         # watch data product widget for changes
-        self.release.observe(self.set_pole_tide)
+        self.product.observe(self.set_pole_tide)
         # watch spherical harmonic degree widget for changes
         self.lmax.observe(self.set_max_order)
 
-- 
2.43.0


From 959df1b5a43065495e173f63165070c3b8870724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 148/163] fix: months follow the data product in notebook
 widgets

---
 gravity_toolkit/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 2a547da..c1b7c52 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -227,6 +227,7 @@ class widgets:
         self.center.observe(self.set_product)
         self.center.observe(self.update_months)
         self.release.observe(self.update_months)
+        self.product.observe(self.update_months)
 
 
     # function for setting the data release
-- 
2.43.0


From 4970acef0fe316c72124934dd85da36ff524261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 149/163] fix: default product not available for a center in
 notebook widgets

---
 gravity_toolkit/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index c1b7c52..8da03e2 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -258,7 +258,9 @@ class widgets:
         elif (self.center.value in ('GFZ','JPL')):
             valid_products = ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
         self.product.options=valid_products
-        self.product.value=self.defaults[2]
+        # use the last valid product if default is not available
+        self.product.value=self.defaults[2] if \
+            (self.defaults[2] in valid_products) else valid_products[-1]
 
     # function for updating the available months
     def update_months(self, sender):
-- 
2.43.0


From a6b204037910647cd5e763c4491572aaba45a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 150/163] fix: file types of the GIA file selection in notebook
 widgets

---
 gravity_toolkit/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 8da03e2..0cff9c1 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -684,7 +684,7 @@ class widgets:
         root = Tk()
         root.withdraw()
         root.call('wm', 'attributes', '.', '-topmost', True)
-        filetypes = (("All Files", "*.*"))
+        filetypes = (("All Files", "*.*"),)
         b.files = filedialog.askopenfilename(
             filetypes=filetypes,
             multiple=False)
-- 
2.43.0


From 6d70ab152afcab0fd672d39f337bfb814d3119ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 151/163] fix: colormap registry of current matplotlib versions
 in tools

---
 gravity_toolkit/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 0cff9c1..67e5b5e 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -59,6 +59,7 @@ try:
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
     warnings.warn("ipywidgets not available", ImportWarning)
 try:
+    import matplotlib
     import matplotlib.cm as cm
     import matplotlib.colors as colors
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
@@ -896,7 +897,7 @@ class colormap:
     def value(self):
         """return string for Matplotlib colormaps
         """
-        return copy.copy(cm.get_cmap(self.name.value + self._r))
+        return copy.copy(matplotlib.colormaps[self.name.value + self._r])
 
     @property
     def norm(self):
@@ -1026,7 +1027,7 @@ def from_cpt(filename, use_extremes=True, **kwargs):
         cmap = cmap.with_extremes(**extremes)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=name, force=True)
     except:
         pass
     # return the colormap
@@ -1110,7 +1111,7 @@ def custom_colormap(N, map_name, **kwargs):
     cmap = colors.LinearSegmentedColormap(map_name, cdict, **kwargs)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=map_name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=map_name, force=True)
     except:
         pass
     # return the colormap
-- 
2.43.0


From 7aba454dc0f555bf782947abe52a774c52d6042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 152/163] fix: colormaps of current matplotlib versions in map
 programs

---
 scripts/plot_AIS_GrIS_maps.py      | 2 +-
 scripts/plot_AIS_grid_3maps.py     | 2 +-
 scripts/plot_AIS_grid_4maps.py     | 2 +-
 scripts/plot_AIS_grid_maps.py      | 2 +-
 scripts/plot_AIS_grid_movie.py     | 2 +-
 scripts/plot_AIS_regional_maps.py  | 2 +-
 scripts/plot_AIS_regional_movie.py | 2 +-
 scripts/plot_GrIS_grid_3maps.py    | 2 +-
 scripts/plot_GrIS_grid_5maps.py    | 2 +-
 scripts/plot_GrIS_grid_maps.py     | 2 +-
 scripts/plot_GrIS_grid_movie.py    | 2 +-
 scripts/plot_QML_grid_3maps.py     | 2 +-
 scripts/plot_global_grid_3maps.py  | 2 +-
 scripts/plot_global_grid_4maps.py  | 2 +-
 scripts/plot_global_grid_5maps.py  | 2 +-
 scripts/plot_global_grid_9maps.py  | 2 +-
 scripts/plot_global_grid_maps.py   | 2 +-
 scripts/plot_global_grid_movie.py  | 2 +-
 18 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 898d70b..8e1a820 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -391,7 +391,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 86065c6..b0146dd 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index baac669..8ffc36a 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -300,7 +300,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_maps.py b/scripts/plot_AIS_grid_maps.py
index 585a13f..e087138 100644
--- a/scripts/plot_AIS_grid_maps.py
+++ b/scripts/plot_AIS_grid_maps.py
@@ -310,7 +310,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 94f68ba..e397e38 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -314,7 +314,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_maps.py b/scripts/plot_AIS_regional_maps.py
index b935a79..fd9fdb1 100644
--- a/scripts/plot_AIS_regional_maps.py
+++ b/scripts/plot_AIS_regional_maps.py
@@ -389,7 +389,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 528aa0b..d0f79e8 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -394,7 +394,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index b317cee..7ca4649 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -316,7 +316,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index a766d8f..5809f76 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_maps.py b/scripts/plot_GrIS_grid_maps.py
index 440970c..b3461d0 100644
--- a/scripts/plot_GrIS_grid_maps.py
+++ b/scripts/plot_GrIS_grid_maps.py
@@ -323,7 +323,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 39fa1b5..7f47408 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -335,7 +335,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index d9ec864..3225aaf 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -305,7 +305,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index e20993e..a099695 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 7763322..4734446 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index f58cc31..755cac4 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -177,7 +177,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 8c58483..850fd9a 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index f23ac3f..33409ea 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -174,7 +174,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 3d629a0..4feadf6 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -173,7 +173,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
-- 
2.43.0


From a59913e306c495d4660899122df648e668d2879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:58 +0000
Subject: [PATCH 153/163] fix: default file format in multiple map programs

---
 scripts/plot_AIS_GrIS_maps.py     | 2 +-
 scripts/plot_AIS_grid_3maps.py    | 2 +-
 scripts/plot_AIS_grid_4maps.py    | 2 +-
 scripts/plot_GrIS_grid_3maps.py   | 2 +-
 scripts/plot_GrIS_grid_5maps.py   | 2 +-
 scripts/plot_QML_grid_3maps.py    | 2 +-
 scripts/plot_global_grid_3maps.py | 2 +-
 scripts/plot_global_grid_4maps.py | 2 +-
 scripts/plot_global_grid_5maps.py | 2 +-
 scripts/plot_global_grid_9maps.py | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 8e1a820..f852174 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -699,7 +699,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index b0146dd..200d150 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -590,7 +590,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index 8ffc36a..bbbe380 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -592,7 +592,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index 7ca4649..c2f7561 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -608,7 +608,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index 5809f76..d5d8465 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -592,7 +592,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index 3225aaf..4379ae8 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -596,7 +596,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index a099695..f838c2e 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -448,7 +448,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 4734446..8dc9424 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -450,7 +450,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 755cac4..6d3ce55 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -456,7 +456,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 850fd9a..2641dec 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -451,7 +451,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
-- 
2.43.0


From e5729db46e178166b5f52be3701043f407acac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:58 +0000
Subject: [PATCH 154/163] fix: removing a spatial field in multiple map
 programs

---
 scripts/plot_AIS_GrIS_maps.py     | 2 +-
 scripts/plot_AIS_grid_3maps.py    | 2 +-
 scripts/plot_AIS_grid_4maps.py    | 2 +-
 scripts/plot_GrIS_grid_3maps.py   | 2 +-
 scripts/plot_GrIS_grid_5maps.py   | 2 +-
 scripts/plot_QML_grid_3maps.py    | 2 +-
 scripts/plot_global_grid_3maps.py | 2 +-
 scripts/plot_global_grid_4maps.py | 2 +-
 scripts/plot_global_grid_5maps.py | 2 +-
 scripts/plot_global_grid_9maps.py | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index f852174..4e22a65 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -500,7 +500,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 200d150..92392c9 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -395,7 +395,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index bbbe380..00ced93 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -395,7 +395,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index c2f7561..6cfb890 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -412,7 +412,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index d5d8465..357f8fc 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -396,7 +396,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index 4379ae8..067c030 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -401,7 +401,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index f838c2e..383cc57 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -261,7 +261,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 8dc9424..d7ad432 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -261,7 +261,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 6d3ce55..006e44b 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -267,7 +267,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 2641dec..a84e5b1 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -262,7 +262,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if np.any(REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
-- 
2.43.0


From 5047f5b9738a7cb7c4aec9ad785941269ae1ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 155/163] fix: removing contours for current matplotlib
 versions in movie programs

---
 scripts/plot_AIS_grid_movie.py     | 2 +-
 scripts/plot_AIS_regional_movie.py | 2 +-
 scripts/plot_GrIS_grid_movie.py    | 2 +-
 scripts/plot_global_grid_movie.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index e397e38..c42e0ea 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -600,7 +600,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index d0f79e8..16301c8 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -689,7 +689,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 7f47408..9540886 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -622,7 +622,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 4feadf6..6885dda 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -438,7 +438,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
-- 
2.43.0


From a46d0d88bd68b9a6ace3c98012f8be9dac8324db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 156/163] fix: latitudes of edge-registered grids in movie
 programs

---
 scripts/plot_AIS_grid_movie.py     | 4 ++--
 scripts/plot_AIS_regional_movie.py | 4 ++--
 scripts/plot_GrIS_grid_movie.py    | 4 ++--
 scripts/plot_global_grid_movie.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index c42e0ea..eb5a2dd 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -550,8 +550,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 16301c8..760c9c4 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -639,8 +639,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 9540886..ec9cdfd 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -572,8 +572,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 6885dda..cea49b5 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -381,8 +381,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
-- 
2.43.0


From 831e39af2c004ee046da9cedcc35e81f002583c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 157/163] fix: zero contour in polar movie programs

---
 scripts/plot_AIS_grid_movie.py     | 2 +-
 scripts/plot_AIS_regional_movie.py | 2 +-
 scripts/plot_GrIS_grid_movie.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index eb5a2dd..3d207b1 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -577,7 +577,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 760c9c4..998abce 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -666,7 +666,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index ec9cdfd..8559bf3 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -599,7 +599,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
-- 
2.43.0


From e3a61a3ba2b6342ae13a28d05c71a768dd291c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:56 +0000
Subject: [PATCH 158/163] fix: ascii grids with decreasing latitudes in map
 programs

---
 scripts/plot_AIS_GrIS_maps.py      | 6 +++---
 scripts/plot_AIS_grid_3maps.py     | 6 +++---
 scripts/plot_AIS_grid_4maps.py     | 6 +++---
 scripts/plot_AIS_grid_maps.py      | 6 +++---
 scripts/plot_AIS_grid_movie.py     | 8 ++++----
 scripts/plot_AIS_regional_maps.py  | 6 +++---
 scripts/plot_AIS_regional_movie.py | 8 ++++----
 scripts/plot_GrIS_grid_3maps.py    | 6 +++---
 scripts/plot_GrIS_grid_5maps.py    | 6 +++---
 scripts/plot_GrIS_grid_maps.py     | 6 +++---
 scripts/plot_GrIS_grid_movie.py    | 8 ++++----
 scripts/plot_QML_grid_3maps.py     | 6 +++---
 scripts/plot_global_grid_3maps.py  | 6 +++---
 scripts/plot_global_grid_4maps.py  | 6 +++---
 scripts/plot_global_grid_5maps.py  | 6 +++---
 scripts/plot_global_grid_9maps.py  | 6 +++---
 scripts/plot_global_grid_maps.py   | 6 +++---
 scripts/plot_global_grid_movie.py  | 8 ++++----
 18 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 4e22a65..a722bb3 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -418,10 +418,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -487,7 +487,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 92392c9..168bcda 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -326,10 +326,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -382,7 +382,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index 00ced93..f4bbe9f 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -327,10 +327,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -382,7 +382,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_AIS_grid_maps.py b/scripts/plot_AIS_grid_maps.py
index e087138..a4c20ec 100644
--- a/scripts/plot_AIS_grid_maps.py
+++ b/scripts/plot_AIS_grid_maps.py
@@ -337,10 +337,10 @@ def plot_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -354,7 +354,7 @@ def plot_grid(base_dir, FILENAME,
     if (DATAFORM == 'ascii'):
         # ascii (.txt)
         dinput = gravtk.spatial().from_ascii(FILENAME, date=False,
-            columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+            columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
     elif (DATAFORM == 'netCDF4'):
         # netCDF4 (.nc)
         field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 3d207b1..56674aa 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -341,10 +341,10 @@ def animate_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -361,13 +361,13 @@ def animate_grid(base_dir, FILENAME,
         # netCDF4 (.nc)
         # HDF5 (.H5)
         dinput = gravtk.spatial().from_file(FILENAME,
-            format=DATAFORM, date=True, spacing=[dlon, dlat],
+            format=DATAFORM, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     elif DATAFORM in ('index-ascii', 'index-netCDF4', 'index-HDF5'):
         # read from index file
         _,dataform = DATAFORM.split('-')
         dinput = gravtk.spatial().from_index(FILENAME,
-            format=dataform, date=True, spacing=[dlon, dlat],
+            format=dataform, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     # replace invalid with a new fill value
     dinput.replace_invalid(fill_value=FILL_VALUE)
diff --git a/scripts/plot_AIS_regional_maps.py b/scripts/plot_AIS_regional_maps.py
index fd9fdb1..8584c73 100644
--- a/scripts/plot_AIS_regional_maps.py
+++ b/scripts/plot_AIS_regional_maps.py
@@ -416,10 +416,10 @@ def plot_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -433,7 +433,7 @@ def plot_grid(base_dir, FILENAME,
     if (DATAFORM == 'ascii'):
         # ascii (.txt)
         dinput = gravtk.spatial().from_ascii(FILENAME, date=False,
-            columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+            columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
     elif (DATAFORM == 'netCDF4'):
         # netCDF4 (.nc)
         field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 998abce..8f92bc3 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -421,10 +421,10 @@ def animate_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -441,13 +441,13 @@ def animate_grid(base_dir, FILENAME,
         # netCDF4 (.nc)
         # HDF5 (.H5)
         dinput = gravtk.spatial().from_file(FILENAME,
-            format=DATAFORM, date=True, spacing=[dlon, dlat],
+            format=DATAFORM, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     elif DATAFORM in ('index-ascii', 'index-netCDF4', 'index-HDF5'):
         # read from index file
         _,dataform = DATAFORM.split('-')
         dinput = gravtk.spatial().from_index(FILENAME,
-            format=dataform, date=True, spacing=[dlon, dlat],
+            format=dataform, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     # replace invalid with a new fill value
     dinput.replace_invalid(fill_value=FILL_VALUE)
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index 6cfb890..4e8926e 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -343,10 +343,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -399,7 +399,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index 357f8fc..9d3506a 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -326,10 +326,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -383,7 +383,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_GrIS_grid_maps.py b/scripts/plot_GrIS_grid_maps.py
index b3461d0..1532eb0 100644
--- a/scripts/plot_GrIS_grid_maps.py
+++ b/scripts/plot_GrIS_grid_maps.py
@@ -350,10 +350,10 @@ def plot_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -367,7 +367,7 @@ def plot_grid(base_dir, FILENAME,
     if (DATAFORM == 'ascii'):
         # ascii (.txt)
         dinput = gravtk.spatial().from_ascii(FILENAME, date=False,
-            columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+            columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
     elif (DATAFORM == 'netCDF4'):
         # netCDF4 (.nc)
         field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 8559bf3..1334e71 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -362,10 +362,10 @@ def animate_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -382,13 +382,13 @@ def animate_grid(base_dir, FILENAME,
         # netCDF4 (.nc)
         # HDF5 (.H5)
         dinput = gravtk.spatial().from_file(FILENAME,
-            format=DATAFORM, date=True, spacing=[dlon, dlat],
+            format=DATAFORM, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     elif DATAFORM in ('index-ascii', 'index-netCDF4', 'index-HDF5'):
         # read from index file
         _,dataform = DATAFORM.split('-')
         dinput = gravtk.spatial().from_index(FILENAME,
-            format=dataform, date=True, spacing=[dlon, dlat],
+            format=dataform, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     # replace invalid with a new fill value
     dinput.replace_invalid(fill_value=FILL_VALUE)
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index 067c030..699c8c8 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -332,10 +332,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -388,7 +388,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index 383cc57..25a5c3a 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -197,10 +197,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -248,7 +248,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index d7ad432..9d05c79 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -197,10 +197,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -248,7 +248,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 006e44b..99eba01 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -198,10 +198,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -254,7 +254,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index a84e5b1..ee370f6 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -197,10 +197,10 @@ def plot_grid(base_dir, FILENAMES,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -249,7 +249,7 @@ def plot_grid(base_dir, FILENAMES,
         if (DATAFORM[i] == 'ascii'):
             # ascii (.txt)
             dinput = gravtk.spatial().from_ascii(FILENAMES[i], date=False,
-                columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+                columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
         elif (DATAFORM[i] == 'netCDF4'):
             # netCDF4 (.nc)
             field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index 33409ea..2868a16 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -195,10 +195,10 @@ def plot_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -212,7 +212,7 @@ def plot_grid(base_dir, FILENAME,
     if (DATAFORM == 'ascii'):
         # ascii (.txt)
         dinput = gravtk.spatial().from_ascii(FILENAME, date=False,
-            columns=VARIABLES, spacing=[dlon,dlat], nlat=nlat, nlon=nlon)
+            columns=VARIABLES, spacing=[dlon,np.abs(dlat)], nlat=nlat, nlon=nlon)
     elif (DATAFORM == 'netCDF4'):
         # netCDF4 (.nc)
         field_mapping = gravtk.spatial().default_field_mapping(VARIABLES)
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index cea49b5..7af9678 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -194,10 +194,10 @@ def animate_grid(base_dir, FILENAME,
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-        nlat = np.int64((180.0/dlat)+1.0)
+        nlat = np.int64((180.0/np.abs(dlat))+1.0)
     elif (INTERVAL == 2):# degree spacing/2
         nlon = np.int64((360.0/dlon))
-        nlat = np.int64((180.0/dlat))
+        nlat = np.int64((180.0/np.abs(dlat)))
 
     # interpolation method for image background using transform_scalar
     if (INTERPOLATION == 'nearest'):
@@ -214,13 +214,13 @@ def animate_grid(base_dir, FILENAME,
         # netCDF4 (.nc)
         # HDF5 (.H5)
         dinput = gravtk.spatial().from_file(FILENAME,
-            format=DATAFORM, date=True, spacing=[dlon, dlat],
+            format=DATAFORM, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     elif DATAFORM in ('index-ascii', 'index-netCDF4', 'index-HDF5'):
         # read from index file
         _,dataform = DATAFORM.split('-')
         dinput = gravtk.spatial().from_index(FILENAME,
-            format=dataform, date=True, spacing=[dlon, dlat],
+            format=dataform, date=True, spacing=[dlon, np.abs(dlat)],
             nlat=nlat, nlon=nlon)
     # replace invalid with a new fill value
     dinput.replace_invalid(fill_value=FILL_VALUE)
-- 
2.43.0


From 5497746ac29c667ea674952115f6cb18dbc00fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:57 +0000
Subject: [PATCH 159/163] fix: Rignot drainage basins in map program for both
 ice sheets

---
 scripts/plot_AIS_GrIS_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index a722bb3..0305ba2 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -189,12 +189,12 @@ def info(args):
 
 # PURPOSE: plot Rignot 2012 drainage basin polylines
 def plot_rignot_basins(ax, base_dir, HEM, projection):
-    region_directory = base_dir.joinpath(*region_dir)
+    region_directory = base_dir.joinpath(*region_dir[HEM])
     # for each region
-    for reg in region_title:
+    for reg in region_title[HEM]:
         # read the regional polylines
         region_file = region_directory.joinpath(region_filename[HEM].format(reg))
-        region_ll = np.loadtxt(region_file, dtype=region_dtype)
+        region_ll = np.loadtxt(region_file, dtype=region_dtype[HEM])
         # converting region lat/lon into plot coordinates
         points = projection.transform_points(ccrs.PlateCarree(),
             region_ll['lon'], region_ll['lat'])
-- 
2.43.0


From 29416852ea241622180816f93190cb1a420ada52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:57 +0000
Subject: [PATCH 160/163] fix: parts of IMBIE-2 basins in map program for both
 ice sheets

---
 scripts/plot_AIS_GrIS_maps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 0305ba2..ce099d9 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -217,8 +217,12 @@ def plot_IMBIE2_basins(ax, base_dir, HEM):
         for indice in i:
             # extract Polar-Stereographic coordinates for record
             points = np.array(shape_entities[indice].points)
-            ax.plot(points[:,0], points[:,1], c='k',
-                transform=projection[HEM])
+            # IMBIE-2 basins can have multiple parts
+            parts = shape_entities[indice].parts
+            parts.append(len(points))
+            for p1,p2 in zip(parts[:-1],parts[1:]):
+                ax.plot(points[p1:p2,0], points[p1:p2,1], c='k',
+                    transform=projection[HEM])
     elif (HEM == 'N'):
         # no GIC or islands
         i=[i for i,a in enumerate(shape_attributes) if a[0] in IMBIE_title[HEM]]
-- 
2.43.0


From 08ec05c051b7180a3fb0a1067d9a3dc91b558a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:42 +0000
Subject: [PATCH 161/163] fix: base map in regional movie program

---
 scripts/plot_AIS_regional_movie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 8f92bc3..56a08fb 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -500,7 +500,7 @@ def animate_grid(base_dir, FILENAME,
     # plot image of MODIS mosaic of Antarctica as base layer
     if BASEMAP:
         # plot MODIS mosaic of Antarctica
-        plot_image_mosaic(ax1, base_dir)
+        plot_image_mosaic(ax1, base_dir, xlimits, ylimits)
 
     # calculate image coordinates
     mx = np.int64((xlimits[1]-xlimits[0])/1000.)+1
-- 
2.43.0


From 8111dca031f88b7d9f7c81ff93064efa5cc92190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 162/163] fix: attributes of monte carlo geocenter file

---
 scripts/monte_carlo_degree_one.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index fe35ff7..2195a09 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -875,6 +875,9 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
             nc[key].setncattr(att_name, att_val)
 
     # define global attributes
+    for att_name, att_val in attributes.items():
+        fileID.setncattr(att_name, att_val)
+    # define creation date attribute
     fileID.date_created = time.strftime('%Y-%m-%d',time.localtime())
     # close the output file
     fileID.close()
-- 
2.43.0


From 2a468ade0555f44b061233a3fda92010ff4e1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:47 +0000
Subject: [PATCH 163/163] fix: scale_grace_maps errors of cells without power
 and magnitude are zero

---
 scripts/scale_grace_maps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 2115830..1ca920b 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -546,6 +546,7 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     # scaled by ratio of GRACE and synthetic power
     ratio = scaled_power.scale(np.power(kfactor.magnitude,-1))
     # replace invalid values with 0
+    ratio.replace_invalid(0.0)
     ratio = np.nan_to_num(ratio.data, nan=0.0, posinf=0.0, neginf=0.0)
     error = grid.copy()
     error.data = kfactor.error*ratio
-- 
2.43.0

