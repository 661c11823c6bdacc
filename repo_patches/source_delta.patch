From fefe301f62ed94b8d09e15ef1fceceada4e5f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 01/22] fix: log-domain marginalisation and normalisation
 overflow, underflow and ignored volume element

The maximum shift was only applied for negative maxima (C) or with one common
maximum for all columns (Python), so large positive log values overflowed and
columns far below the largest underflowed to zero. The volume element was
ignored by the compiled path and for single-entry PDFs, and the compiled path
normalised its input in place.
---
 src/MTfit/probability/cprobability.pyx | 24 +++++++++-----------
 src/MTfit/probability/probability.py   | 31 +++++++++++++++-----------
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 0f776b8..7f8886c 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -85,13 +85,11 @@ IF UNAME_SYSNAME == "Windows":
                 for v from 0<=v<vmax:
                     if ln_p[v,w]>scale:
                         scale=ln_p[v,w]
-                if scale>0:
-                    scale=0
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -104,11 +102,11 @@ IF UNAME_SYSNAME == "Windows":
         for w from 0<=w<wmax:            
             if scale<ln_p[w]:
                 scale=ln_p[w]
-        if scale>0:
+        if scale==-inf:
             scale=0
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
@@ -142,12 +140,11 @@ ELSE:
                 scale=-inf
                 for v from 0<=v<vmax:
                     scale=fmax(scale,ln_p[v,w])
-                scale=fmin(scale,0)
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -159,10 +156,11 @@ ELSE:
         cdef DTYPE_t scale=-inf, N=0
         for w from 0<=w<wmax:
             scale=fmax(scale,ln_p[w])
-        scale=fmin(scale,0)
+        if scale==-inf:
+            scale=0
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 065512e..fb45404 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -867,27 +867,35 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     if cprobability and axis == 0:
         try:
             if isinstance(ln_pdf, LnPDF):
-                return cprobability.ln_marginalise(ln_pdf._ln_pdf.astype(np.float64))
-            return cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+                ln_pdf = ln_pdf._ln_pdf
+            result = cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+            if ln_pdf.shape[0] != 1:
+                result = result + np.log(dV)
+            return result
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
+    if isinstance(ln_pdf, LnPDF):
+        ln_pdf = ln_pdf._ln_pdf
     # scale and then marginalise:
-    ln_scale = 0
     if ln_pdf.shape[axis] == 1:
         return np.array(ln_pdf).squeeze(axis)
     elif axis == 0 and len(ln_pdf.shape) == 1:
         # Probably shouldn't be marginalising over the last parameter
         return ln_pdf
-    if np.prod(ln_pdf.shape) and ln_pdf.max() < 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    ln_scale = np.zeros([1 if i == axis else n for i, n in enumerate(ln_pdf.shape)])
+    if np.prod(ln_pdf.shape):
+        # Each marginalised value is shifted by its own maximum, so it can neither underflow nor overflow
+        ln_scale = np.asarray(ln_pdf).max(axis=axis, keepdims=True)
+        ln_scale = np.where(np.isfinite(ln_scale), ln_scale, 0)
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
         # if axis == 0:
         #     # Get consistency with c code
         #     ln_pdf = np.array(ln_pdf)
-        result = np.log(np.sum(np.exp(ln_pdf+ln_scale)*dV, axis=axis)) - ln_scale
+        result = np.log(np.sum(np.exp(ln_pdf-ln_scale)*dV, axis=axis))
+        result = result + ln_scale.reshape(result.shape)
     if axis == 0:
         result = np.array(result).flatten()
     return result
@@ -911,23 +919,20 @@ def ln_normalise(ln_pdf, dV=1):
 
     """
     if ln_pdf.ndim == 1 and ln_pdf.shape[0] == 1:
-        return np.array([0])
+        return np.array([0-np.log(dV)])
     if cprobability:
         try:
             if ln_pdf.ndim != 1 and ln_pdf.shape[0] != 1:
                 raise Exception('Incorrect shape')
-            if ln_pdf.ndim == 2:
-                normalised_ln_pdf = cprobability.ln_normalise(np.asarray(ln_pdf).flatten())
-            else:
-                normalised_ln_pdf = cprobability.ln_normalise(ln_pdf)
-            return normalised_ln_pdf
+            # flatten copies, so the input is not normalised in place
+            return cprobability.ln_normalise(np.asarray(ln_pdf).flatten(), dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale and then marginalise:
     ln_scale = 0
-    if -ln_pdf.max() > 0 and ln_pdf.max() > -np.inf:
+    if np.isfinite(ln_pdf.max()):
         ln_scale = -ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-- 
2.43.0


From 8c22e02777bfca6b91e600f13b15cdf29423e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 02/22] fix: polarity likelihoods failed for a single station
 with compiled code, nodal polarity-probability ignored the pick probabilities

np.squeeze made the mispick array 0-dimensional for one station, so both the
compiled and the fallback path raised. The compiled step mixture returned 0.5
at zero amplitude rather than the mean of the two pick probabilities.
---
 src/MTfit/probability/cprobability.pyx | 2 +-
 src/MTfit/probability/probability.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 7f8886c..129e03f 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -219,7 +219,7 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
     if x>0:
        return (1-i)*p+i*n
     elif x==0:
-        return 0.5
+        return 0.5*(p+n)
     else:
         return (1-i)*n+i*p
 
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index fb45404..9e08d2b 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -115,7 +115,7 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(sigma.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
@@ -230,7 +230,7 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(positive_probability.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
-- 
2.43.0


From b0f6e05b8a91c5072bfbec9d41e47b01fe1d5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 03/22] fix: converting a multi-event sample crashed and its
 divergence was never reported

---
 src/MTfit/sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 95c1ddf..9a8842f 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -212,7 +212,8 @@ class Sample(object):
                         g = sorted([key for key in output.keys() if key == 'g' or ('g' in key and (key[0] == 'g' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
                         d = sorted([key for key in output.keys() if key == 'd' or ('d' in key and (key[0] == 'd' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
                         for i, gi in enumerate(g):
-                            if np.max(gi)-np.min(gi) < 0.000001 and np.abs(np.mean(gi)) < 0.000001 and np.max(d[i])-np.min(d[i]) < 0.000001 and np.abs(np.mean(d[i])) < 0.000001:
+                            gi, di = output[gi], output[d[i]]
+                            if np.max(gi)-np.min(gi) < 0.000001 and np.abs(np.mean(gi)) < 0.000001 and np.max(di)-np.min(di) < 0.000001 and np.abs(np.mean(di)) < 0.000001:
                                 V *= (2*np.pi*np.pi)
                             else:
                                 V *= (np.pi*np.pi*np.pi)
@@ -445,6 +446,6 @@ def _convert(moment_tensors, i=None):
     output = output_convert(moment_tensors)
     if isinstance(i, int):
         # Multiple events
-        for key in output.keys():
+        for key in list(output.keys()):
             output[key+'_'+str(i)] = output.pop(key)
     return output
-- 
2.43.0


From b71ebae39c8c1bf86848f6bb643ed5a5ad5eca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 04/22] fix: axes of tensors with repeated eigenvalues were not
 orthonormal (python) or read out of bounds (compiled)

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 3 +++
 src/MTfit/convert/moment_tensor_conversion.py   | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index a6bfe5c..b7c1b1a 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -304,6 +304,9 @@ cdef cMT6_TNPE(DTYPE_t[:] MT):
             maxi=i
         if e[i]<e[mini]:
             mini=i
+    if maxi==mini: # All eigenvalues equal
+        maxi=2
+        mini=0
     E[0]=e[maxi]
     E[1]=e[3-maxi-mini]
     E[2]=e[mini]
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 20753a5..ad3aeaf 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -18,6 +18,7 @@ The coordinate system is North (X), East (Y), Down (Z)
 import logging
 
 import numpy as np
+from scipy.linalg import eigh, eigvalsh
 from scipy.optimize import fsolve
 
 from ..utilities import C_EXTENSION_FALLBACK_LOG_MSG
@@ -178,10 +179,10 @@ def MT33_TNPE(MT33):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
-    E, L = np.linalg.eig(MT33)
+    E, L = eigh(MT33)
     idx = E.argsort()[::-1]
     E = E[idx]
-    L = L[:, idx]
+    L = np.matrix(L[:, idx])
     T = L[:, 0]
     P = L[:, 2]
     N = L[:, 1]
@@ -213,7 +214,7 @@ def MT33_GD(MT33):
     Returns
         (numpy.array, numpy.array): tuple of gamma, delta
     """
-    E, L = np.linalg.eig(MT33)
+    E = eigvalsh(MT33)
     return E_GD(E)
 
 
-- 
2.43.0


From 1d49b9df1e2ed758350804ceb39c560cb9738576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 05/22] fix: source-type coordinates depended on eigenvalue
 order and were NaN for nearly isotropic sources

---
 .../convert/cmoment_tensor_conversion.pyx     | 33 ++++++++++++++++---
 src/MTfit/convert/moment_tensor_conversion.py |  4 ++-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index b7c1b1a..241c806 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -87,16 +87,39 @@ cdef inline DTYPE_t[::1] ctk_uv(DTYPE_t[::1] results) nogil:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
-    if E[0]==E[2]:
-        if E[0]>0:
+    #Largest to smallest eigenvalue
+    cdef DTYPE_t e0=E[0]
+    cdef DTYPE_t e1=E[1]
+    cdef DTYPE_t e2=E[2]
+    cdef DTYPE_t x
+    if e0<e1:
+        x=e0
+        e0=e1
+        e1=x
+    if e1<e2:
+        x=e1
+        e1=e2
+        e2=x
+    if e0<e1:
+        x=e0
+        e0=e1
+        e1=x
+    if e0==e2:
+        if e0>0:
             g[0]=0
             d[0]=pi/2
-        elif E[0]<0:
+        elif e0<0:
             g[0]=0
             d[0]=-pi/2
     else:
-        g[0]=atan2(-E[0]+2*E[1]-E[2],sqrt3*(E[0]-E[2]))
-        d[0]=pi/2-acos((E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))
+        g[0]=atan2(-e0+2*e1-e2,sqrt3*(e0-e2))
+        x=(e0+e1+e2)/(sqrt3*sqrt((e0*e0+e1*e1+e2*e2)))
+        #Rounding can take nearly isotropic sources outside the acos domain
+        if x>1:
+            x=1
+        elif x<-1:
+            x=-1
+        d[0]=pi/2-acos(x)
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index ad3aeaf..f857de9 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -236,6 +236,7 @@ def E_tk(E):
         for i in range(E.shape[1]):
             tau[i], k[i] = E_tk(E[:, i])
     else:
+        E = E[E.argsort()[::-1]]
         idx = [0, 2, 1]  # Odd sorting
         E = E[idx]
         iso = (E[0]+E[1]+E[2])/3
@@ -351,7 +352,8 @@ def E_GD(E):
         idx = E.argsort()[::-1]
         E = E[idx]
         gamma = np.arctan2(-E[0]+2*E[1]-E[2], np.sqrt(3)*(E[0]-E[2]))
-        beta = np.arccos(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))))
+        # Rounding can take nearly isotropic sources outside the arccos domain
+        beta = np.arccos(np.clip(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))), -1, 1))
         delta = np.real(np.pi/2-beta)
     return gamma, delta
 
-- 
2.43.0


From b449d1b648fd115888da6037d74b0d9826bb2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 06/22] fix: horizontal fault planes lost their rake, rake pi
 was reported outside [-pi, pi), python auxiliary plane could be the input
 plane

---
 .../convert/cmoment_tensor_conversion.pyx     |  9 +++++--
 src/MTfit/convert/moment_tensor_conversion.py | 24 ++++++++-----------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 241c806..fe2bd8d 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -132,9 +132,14 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
         S0 = -S0
         S1 = -S1
         S2 = -S2
+    cdef DTYPE_t sin_dip = sqrt(N0*N0+N1*N1)
     strike[0] = atan2(-N0, N1)
     dip[0] = atan2((N1**2+N0**2), sqrt((N0*N2)**2+(N1*N2)**2))
-    rake[0] = atan2(-S2, S0*N1 - S1*N0)
+    if sin_dip < 1e-6:
+        #(Nearly) horizontal plane: use the slip along the strike and up-dip directions
+        rake[0] = atan2(-N2*(S0*sin(strike[0])-S1*cos(strike[0]))-S2*sin_dip, S0*cos(strike[0])+S1*sin(strike[0]))
+    else:
+        rake[0] = atan2(-S2, S0*N1 - S1*N0)
     if dip[0] > pi/2:
         dip[0] = pi-dip[0]
         strike[0] = strike[0]+pi
@@ -143,7 +148,7 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
         strike[0] = fmod(strike[0],PI2)
     if strike[0] < 0.0:
         strike[0] += PI2
-    if rake[0] > pi:
+    if rake[0] >= pi:
         rake[0] -= PI2
     elif rake[0] < -pi:
         rake[0] += PI2
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index f857de9..89052c1 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -458,11 +458,18 @@ def FP_SDR(normal, slip):
     slip = np.array(slip)
     strike, dip = normal_SD(normal)
     rake = np.arctan2(-slip[2], slip[0]*normal[1]-slip[1]*normal[0])
+    # For a (nearly) horizontal plane both arguments above vanish, so use the slip along the strike and up-dip directions
+    sin_dip = np.sqrt(normal[0]**2+normal[1]**2)
+    horizontal = sin_dip < 1e-6
+    sin_strike = np.where(horizontal, np.sin(strike), 0.)
+    cos_strike = np.where(horizontal, np.cos(strike), 0.)
+    rake[horizontal] = np.arctan2(-normal[2]*(slip[0]*sin_strike-slip[1]*cos_strike)-slip[2]*sin_dip,
+                                  slip[0]*cos_strike+slip[1]*sin_strike)[horizontal]
     strike[dip > np.pi/2] += np.pi
     rake[dip > np.pi/2] = 2*np.pi-rake[dip > np.pi/2]
     dip[dip > np.pi/2] = np.pi-dip[dip > np.pi/2]
     strike = np.mod(strike, 2*np.pi)
-    rake[rake > np.pi] -= 2*np.pi
+    rake[rake >= np.pi] -= 2*np.pi
     rake[rake < -np.pi] += 2*np.pi
     return (np.array(strike).flatten(), np.array(dip).flatten(), np.array(rake).flatten())
 
@@ -576,19 +583,8 @@ def SDR_SDR(strike, dip, rake):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # Handle multiple inputs
     N1, N2 = SDR_FP(strike, dip, rake)
-    s1, d1, r1 = FP_SDR(N1, N2)
-    s2, d2, r2 = FP_SDR(N2, N1)
-    # This should be ok to return s2,d2,r2 but doesn't seem to work
-    try:
-        r2[np.abs(strike-s2) < 1] = r1[np.abs(strike-s2) < 1]
-        d2[np.abs(strike-s2) < 1] = d1[np.abs(strike-s2) < 1]
-        s2[np.abs(strike-s2) < 1] = s1[np.abs(strike-s2) < 1]
-        return s2, d2, r2
-    except Exception:
-        if np.abs(strike-s1) < 1:
-            return (s2, d2, r2)
-        else:
-            return (s1, d1, r1)
+    # N1 is the slip vector of the input plane, so the normal of the other plane
+    return FP_SDR(N1, N2)
 
 
 def FP_TNP(normal, slip):
-- 
2.43.0


From ff67e9b2e299c31076b6516d909ed6812e0ae63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 07/22] fix: keep incorrect polarity and negative pick
 probabilities aligned with their stations

---
 src/MTfit/inversion.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 418074d..ee39077 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2916,11 +2916,14 @@ def polarity_matrix(data, location_samples=False):
             error = _error
             incorrect_polarity_prob = _incorrect_polarity_prob
         else:
-            a = np.append(a, np.multiply(angles, measured), 0)
-            error = np.append(error, _error, 0)
+            if len(incorrect_polarity_prob) != a.shape[0]:
+                # Make sure these are the same length as the data as we are appending to them
+                incorrect_polarity_prob = np.kron(incorrect_polarity_prob, np.ones(a.shape[0]))
             if len(_incorrect_polarity_prob) != n_stations:
                 # Make sure this is the same length as the data as we are appending it
                 _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
+            a = np.append(a, np.multiply(angles, measured), 0)
+            error = np.append(error, _error, 0)
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
@@ -2988,9 +2991,15 @@ def polarity_probability_matrix(data, location_samples=False):
             negative_probability = np.array(measured[:, 1]).flatten()
             incorrect_polarity_prob = _incorrect_polarity_prob
         else:
+            if len(incorrect_polarity_prob) != a.shape[0]:
+                # Make sure these are the same length as the data as we are appending to them
+                incorrect_polarity_prob = np.kron(incorrect_polarity_prob, np.ones(a.shape[0]))
+            if len(_incorrect_polarity_prob) != angles.shape[0]:
+                # Make sure this is the same length as the data as we are appending it
+                _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(angles.shape[0]))
             a = np.append(a, angles, 0)
             positive_probability = np.append(positive_probability, np.array(measured[:, 0]).flatten())
-            negative_probability = np.append(positive_probability, np.array(measured[:, 1]).flatten())
+            negative_probability = np.append(negative_probability, np.array(measured[:, 1]).flatten())
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
-- 
2.43.0


From d3e784ba30cda39de3731d6c8d399d88d1d7537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 08/22] fix: match the stations of every location sample by
 name

---
 src/MTfit/inversion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index ee39077..b563c5d 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2876,9 +2876,10 @@ def polarity_matrix(data, location_samples=False):
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
             n_stations = len(selected_stations)
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((n_stations, len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between the samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -2960,9 +2961,10 @@ def polarity_probability_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between the samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -3041,10 +3043,11 @@ def amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles1 = np.zeros((len(selected_stations), len(location_samples), 6))
             angles2 = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between the samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -3115,9 +3118,10 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between the samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
-- 
2.43.0


From 7d7586b3a090466b56b34bb6d6ea11b9d3a1abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 09/22] fix: combine several relative amplitude types with
 location samples

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index b563c5d..1c60cee 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3129,8 +3129,8 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
             angles = np.array(angles)
             relative_amplitude_stations.extend(selected_stations)
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
-            measured = data[key]['Measured'][indices]
-            error = data[key]['Error'][indices]
+            measured = np.array(data[key]['Measured'][indices]).flatten()
+            error = np.array(data[key]['Error'][indices]).flatten()
         # Otherwise get angles and measurements
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
-- 
2.43.0


From 4cd9f7f4550b0d3a7b5e9e80f4340386e86229a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 10/22] fix: combined likelihoods with different numbers of
 observations per data type, combined sample generation

---
 src/MTfit/probability/cprobability.pyx | 113 ++++++-------------------
 1 file changed, 25 insertions(+), 88 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 129e03f..d1bade5 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -415,99 +415,37 @@ cdef void station_combined_all_ln_pdf(DTYPE_t*a,DTYPE_t*a_prob,DTYPE_t*ax,DTYPE_
     cdef DTYPE_t muy=0.0
     cdef DTYPE_t x=0.0 
     cdef DTYPE_t x1=0.0     
-    cdef Py_ssize_t utmin=umax
     cdef Py_ssize_t utmax=uarmax
-    if umax>uarmax:
+    if umax>utmax:
         utmax=umax
-        utmin=uarmax
-    if uprobmax<utmin:
-        utmin=uprobmax
     if uprobmax>utmax:
         utmax=uprobmax
+    #Each data type has its own number of observations
     for u from 0<=u<utmax:
-        if u<utmin:#all
-            x=0
-            x1=0
-            mux=0
-            muy=0
+        if u<umax:#Pol
+            x=0.
             for k from 0<=k<kmax:# loop over num mt samples and make x
                 x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                x1+=a_prob[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
             #First index is station, second is locaton sample, last is MT sample
             if ipmax==1:
-                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))+log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
+                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))
             else:
-                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))+log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-        elif u>=umax:#AR +pol?
-            if u>=uprobmax:#AR Only
-                mux=0.
-                muy=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                if ipmax==1:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))   
-            else:#AR +pol prob
-                x1=0
-                mux=0
-                muy=0
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x1+=a_prob[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                #First index is station, second is locaton sample, last is MT sample
-                if ipmax==1:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-        elif u>=uprobmax:#AR +pol?
-            if u>=umax:#AR Only
-                mux=0.
-                muy=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                if ipmax==1:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))   
-            else:#AR +pol prob
-                x1=0
-                mux=0
-                muy=0
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                #First index is station, second is locaton sample, last is MT sample
-                if ipmax==1:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-        else:#Pol prob +pol?
-            if u>=uprobmax:#Pol Only
-                x=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                if ipmax==1:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))
-                else:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))  
-            else:#Pol +pol prob
-                x1=0.
-                x=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    x1+=a_prob[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                #First index is station, second is locaton sample, last is MT sample
-                if ipmax==1:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))+log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))
-                else:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))+log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))
+                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))
+        if u<uprobmax:#Pol prob
+            x1=0.
+            for k from 0<=k<kmax:# loop over num mt samples and make x
+                x1+=a_prob[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
+            if ipmax==1:
+                ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))
+            else:
+                ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))
+        if u<uarmax:#AR
+            mux=0.
+            muy=0.
+            for k from 0<=k<kmax:# loop over num mt samples and make x
+                mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
+                muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
+            ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
         if ln_P[index]==-inf:
             return 
 
@@ -524,7 +462,6 @@ cdef void station_combined_pol_ln_pdf(DTYPE_t*a,DTYPE_t*a_prob,DTYPE_t*mt,DTYPE_
     if umax>uprobmax:
         utmax=umax
         utmin=uprobmax
-        utmax=uprobmax
     for u from 0<=u<utmax:
         if u<utmin:#all
             x=0
@@ -1308,7 +1245,7 @@ cdef void c_all_combined_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
             #loc_samples_multiplier
             for v from 0<=v<vmax:
                 ln_P_loc_samples[v]=location_samples_multiplier[v]
-                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,wmax, w, v) 
+                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,tmax, t, v) 
                 max_ln_p_loc=fmax(max_ln_p_loc,ln_P_loc_samples[v])
             if max_ln_p_loc>-inf:
                 ln_P[w]=0.0
@@ -1320,7 +1257,7 @@ cdef void c_all_combined_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
         else:
             for v from 0<=v<vmax:
                 ln_P[v*wmax+w]=location_samples_multiplier[v]
-                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,wmax, w, v*wmax+w) 
+                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,tmax, t, v*wmax+w) 
                 if ln_P[v*wmax+w]>-inf:
                     ok=True
         if ok:
@@ -1375,7 +1312,7 @@ cdef void c_combined_pol_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
             #loc_samples_multiplier
             for v from 0<=v<vmax:
                 ln_P_loc_samples[v]=location_samples_multiplier[v]
-                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,wmax, w, v) 
+                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,tmax, t, v) 
                 max_ln_p_loc=fmax(max_ln_p_loc,ln_P_loc_samples[v])
             if max_ln_p_loc>-inf:
                 ln_P[w]=0.0
@@ -1387,7 +1324,7 @@ cdef void c_combined_pol_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
         else:
             for v from 0<=v<vmax:
                 ln_P[v*wmax+w]=location_samples_multiplier[v]
-                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,wmax, w, v*wmax+w) 
+                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,tmax, t, v*wmax+w) 
                 if ln_P[v*wmax+w]>-inf:
                     ok=True
         if ok:
-- 
2.43.0


From c8d3b64fe5715e4b75d0e2be668071e7be38ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 11/22] fix: zero uncertainties gave NaN in the combined
 likelihood

---
 src/MTfit/probability/cprobability.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index d1bade5..52482d1 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -36,6 +36,7 @@ from libc.math cimport M_PI as pi
 from libc.math cimport M_SQRT2 as sqrt2
 cdef DTYPE_t RAND_MAX_D=<DTYPE_t> RAND_MAX
 
+cdef DTYPE_t small_number=0.000000000000000000000001 #Replaces zero uncertainties
 cdef DTYPE_t cutoff=0.0 #Ratio PDF cutoff to approximate as Gaussian - improve calculation speed at the expense of some accuracy
 #corresponds to the Percentage error in the denominator as this governs the deviation of the ratio PDF from the Gaussian
 # 0.1 seems good by eye, little deviation over a range of percentage unc in x
@@ -1486,6 +1487,13 @@ def combined_ln_pdf(mt_arr,a_polarity,error_polarity,a1_amplitude_ratio,a2_ampli
         a_polarity_prob=a_polarity_prob.astype(np.float64,copy=False)
     if isinstance(polarity_prob, np.ndarray) and polarity_prob.dtype!=np.float64:
         polarity_prob=polarity_prob.astype(np.float64,copy=False)
+    # Zero uncertainties are treated as very small ones (as for the individual likelihoods)
+    if isinstance(error_polarity, np.ndarray):
+        error_polarity=np.where(error_polarity==0,small_number,error_polarity)
+    if isinstance(percentage_error1_amplitude_ratio, np.ndarray):
+        percentage_error1_amplitude_ratio=np.where(percentage_error1_amplitude_ratio==0,small_number,percentage_error1_amplitude_ratio)
+    if isinstance(percentage_error2_amplitude_ratio, np.ndarray):
+        percentage_error2_amplitude_ratio=np.where(percentage_error2_amplitude_ratio==0,small_number,percentage_error2_amplitude_ratio)
     #
     #Bounds checking
     #
-- 
2.43.0


From c46cc82dae846d9b4d9e76517a81db3403db0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 12/22] fix: the uncompiled forward task never evaluated
 polarity probabilities and ignored some location weights

---
 src/MTfit/inversion.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 1c60cee..ec09ae4 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -261,7 +261,7 @@ class ForwardTask(object):
                             warnings.simplefilter("ignore")
                             # polarity ln_pdf (will try to use cython again, and only fall back to python if necessary)
                             ln_p_total = polarity_ln_pdf(self.a_polarity, self.mt, self.error_polarity, self.incorrect_polarity_prob)
-                        # Set manual_polarities (don't use auto-polarities) and return flags (have evaluated a PDF)
+                        # Set manual_polarities and return flags (have evaluated a PDF)
                         manual_polarities = True
                         _return = True
                         # Print number of non zero samples (Verbosity>=3)
@@ -272,21 +272,27 @@ class ForwardTask(object):
                             logger.exception('Polarity Exception')
                     # Force garbage collect to tidy memory
                     gc.collect()
-                    # If manual polarity data didn't work or doesn't exist, try automated polarities
-                    if not manual_polarities:
+                    # Polarity probability data is independent of the manual polarity data, so include it if it exists
+                    if isinstance(self.a_polarity_prob, np.ndarray):
                         try:
                             # Ignore np.divide errors
                             with warnings.catch_warnings() and np.errstate(divide='ignore'):
                                 warnings.simplefilter("ignore")
                                 # Polarity probability ln_pdf (will try to use cython again, and only fall back to python if necessary)
-                                ln_p_total = polarity_probability_ln_pdf(np.tensordot(self.a_polarity_prob, self.mt, 1), self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
+                                ln_p_pol_prob = polarity_probability_ln_pdf(self.a_polarity_prob, self.mt, self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
+                            if manual_polarities:
+                                # if Cython and polarity data exists, combine using Cython
+                                if cprobability and not _CYTHON_TESTS:
+                                    ln_p_total = cprobability.ln_combine(ln_p_total, ln_p_pol_prob)
+                                else:
+                                    ln_p_total = ln_p_total+ln_p_pol_prob
+                            else:
+                                ln_p_total = ln_p_pol_prob
                             _return = True
                             # Print number of non zero samples (Verbosity>=3)
                             logger.debug('Polarity probability non-zero samples = {}'.format(sum(ln_p_total > -np.inf)))
                         except Exception:
-                            # Exception  - check if data exists and print output, otherwise ignore
-                            if not isinstance(self.a_polarity_prob, np.ndarray) and self.a_polarity_prob:
-                                logging.exception('Polarity PDF Exception')
+                            logger.exception('Polarity PDF Exception')
                         # Force garbage collect to tidy memory
                         gc.collect()
                     # Check if  any probabilities are non zero otherwise return
@@ -343,7 +349,7 @@ class ForwardTask(object):
                         # No data has been used, so print exceptions
                         logging.error('No data used in polarity, amplitude ratio or polarity PDF')
                     # If location PDF samples exist and sample PDF multipliers exist (increased Prob) - For Oct -tree sampling  sample density correspond to PDF values (more samples in higher prob). Grid sampling needs location multipliers set (can be done using Scat2Angle with 'grid' option in command line)
-                    if location_samples and self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
+                    if location_samples and self.location_sample_multipliers:
                         if cprobability:
                             location_sample_multipliers = np.array(self.location_sample_multipliers)
                             location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
-- 
2.43.0


From c6c3dc974827f0754b72e665b999389fcd4efa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 13/22] fix: return unit norm double-couples from the compiled
 random_dc

---
 src/MTfit/probability/cprobability.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 52482d1..039083b 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1899,12 +1899,12 @@ cdef DTYPE_t[:,::1] rand_dc(int x):
         s2k=sin(2*kappa)
         ss=sin(sigma)
         sh=sqrt(1-h*h)
-        mt[0,j]=-sh*cs*s2k-2*h*sh*ss*sk*sk
-        mt[1,j]=sh*cs*2*sk*ck-2*sh*h*ss*ck*ck
-        mt[2,j]=2*sh*h*ss
-        mt[3,j]=sqrt2*(sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k)
-        mt[4,j]=sqrt2*(-h*cs*ck-(2*h*h-1)*ss*sk)
-        mt[5,j]=sqrt2*(-h*cs*sk+(2*h*h-1)*ss*ck)
+        mt[0,j]=(-sh*cs*s2k-2*h*sh*ss*sk*sk)/sqrt2
+        mt[1,j]=(sh*cs*2*sk*ck-2*sh*h*ss*ck*ck)/sqrt2
+        mt[2,j]=2*sh*h*ss/sqrt2
+        mt[3,j]=(sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k)
+        mt[4,j]=(-h*cs*ck-(2*h*h-1)*ss*sk)
+        mt[5,j]=(-h*cs*sk+(2*h*h-1)*ss*ck)
     return mt
 
 cpdef random_mt(int x):
-- 
2.43.0


From 75092a8ae3ff68bd449cd98e925c72763a48d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 14/22] fix: draw the CLVD sign independently for each sample

---
 src/MTfit/algorithms/base.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/algorithms/base.py b/src/MTfit/algorithms/base.py
index 74924ee..3fa93ee 100644
--- a/src/MTfit/algorithms/base.py
+++ b/src/MTfit/algorithms/base.py
@@ -252,15 +252,9 @@ class BaseAlgorithm(object):
 
         """
         np.random.seed()
-        # Select CVLD type
-        np.kron([[1], [1], [1]], np.sign(np.random.rand(self.number_samples)-0.5))*np.ones(
-            (3, self.number_samples))*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        if np.random.rand() > 0.5:
-            clvd_diag = np.array(
-                [[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        else:
-            clvd_diag = np.array(
-                [[-2/np.sqrt(6)], [1/np.sqrt(6)], [1/np.sqrt(6)]])
+        # Select CLVD type independently for each sample
+        sign = np.where(np.random.rand(self.number_samples) > 0.5, 1., -1.)
+        clvd_diag = sign*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
         # Use random_type for DC eigenvalues
         return self.random_type(clvd_diag)
 
-- 
2.43.0


From 8677db19df512ea9f38eb4edc29d308363379037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 15/22] fix: empty results without the compiled extension

---
 src/MTfit/probability/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 9e08d2b..34b4ee8 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -932,7 +932,7 @@ def ln_normalise(ln_pdf, dV=1):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale and then marginalise:
     ln_scale = 0
-    if np.isfinite(ln_pdf.max()):
+    if ln_pdf.size and np.isfinite(ln_pdf.max()):
         ln_scale = -ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-- 
2.43.0


From be39bec88fd87fa48c852440e65c421aa7f53a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 16/22] fix: Markov-chain acceptance ratios for jumps and
 multiple events

- normalise the balancing density over the lune as it is drawn
- compiled multi-event acceptance capped each event at one and accumulated over candidates
- compiled flat prior ignored the model change of a jump, jumps were missed when one source parameter was unchanged
- python: g0/d0 of a jump made every following shift accepted, dc_prior ignored, multi-event jumps failed,
  zero likelihood accepted when the random draw is zero
---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 97 ++++++++++---------
 .../algorithms/markov_chain_monte_carlo.py    | 65 +++++++++++--
 2 files changed, 110 insertions(+), 52 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 068ed51..8e654ab 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -69,43 +69,39 @@ IF UNAME_SYSNAME == "Windows":
         cdef double y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x)
         return sign*y
     
-    #no fmin so acceptance different to *nix
-    @cython.boundscheck(False)
-    @cython.wraparound(False)
-    @cython.nonecheck(False)
+    #no fmin so defined here
     @cython.cdivision(True)
-    cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
-        cdef DTYPE_t acc
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                #MT to DC
-                model_prior_ratio=p_dc/(1-p_dc)
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
-            elif g0==0.0 and d0==0.0 :
-                #DC to MT
-                model_prior_ratio=(1-p_dc)/p_dc
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio            
-        else:   
-            acc=exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
-        if acc<1:
-            return acc
-        return 1
+    cdef inline double fmin(double x,double y) nogil:
+        if y<x:
+            return y
+        return x
 ELSE:
     cdef DTYPE_t ND=tgamma(11.490)/(tgamma(5.745)*tgamma(5.745))*1.10452194071529090000
 
-    @cython.boundscheck(False)
-    @cython.wraparound(False)
-    @cython.nonecheck(False)
-    @cython.cdivision(True)
-    cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                model_prior_ratio=p_dc/(1-p_dc)
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio)
-            elif g0==0.0 and d0==0.0 :
-                model_prior_ratio=(1-p_dc)/p_dc
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio)
-        return fmin(1,exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0))
+#Ratio of the acceptance condition for a single event (not limited to 1, so that the ratios can be combined for multiple events)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc):
+    cdef DTYPE_t model_prior_ratio
+    if jump>0:
+        if gamma==0.0 and delta==0.0:
+            #MT to DC
+            model_prior_ratio=p_dc/(1-p_dc)
+            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
+        elif g0==0.0 and d0==0.0 :
+            #DC to MT
+            model_prior_ratio=(1-p_dc)/p_dc
+            return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio
+    return exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
+
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc):
+    return fmin(1,acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s,ln_p,ln_p0,jump,qg,qd,sg,sd,proposal_normalisation,p_dc))
 
 #Gaussian PDF
 @cython.boundscheck(False)
@@ -181,6 +177,20 @@ cdef inline DTYPE_t uniform_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,D
 cdef inline DTYPE_t flat_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,DTYPE_t d0) nogil:
     return 1.0
 
+#Ratio of the flat (over the parameters) prior including DC/MT jumps
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef inline DTYPE_t flat_model_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,DTYPE_t d0) nogil:
+    if gamma==0.0 and delta==0.0:
+        if g0==0.0 and d0==0.0:
+            return 1.0
+        return pi*pi/3
+    elif g0==0.0 and d0==0.0:
+        return 3/(pi*pi)
+    return flat_prior_ratio(gamma,delta,g0,d0)
+
 # Functions for obtaining new Tape parameter samples etc.
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -273,7 +283,7 @@ cdef int c_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ratio
     cdef DTYPE_t acc=0
     for u in range(umax):
         jump=0
-        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not gamma[u]==g0 and not delta[u]==d0 and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
+        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and not (gamma[u]==g0 and delta[u]==d0) and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
             jump=1
         if ln_p[u]==-inf:
             continue
@@ -295,16 +305,13 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
     for u in range(umax):
         if ln_p[u]==-inf:
             continue
+        acc=1
         for v in range(nevents):
             jump=0
-            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not gamma[u,v]==g0[v] and not delta[u,v]==d0[v] and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
+            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and not (gamma[u,v]==g0[v] and delta[u,v]==d0[v]) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
-            acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
-            if acc==0:
-                break
-        if v<nevents-1 or acc==0.0:#No acceptance, so no point in continuing
-            continue
-        acc*=exp(ln_p[u]-ln_p0)
+            acc*=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
+        acc=fmin(1,acc*exp(ln_p[u]-ln_p0))
         if acc>np.random.rand():
             return <int>u
     return -1
@@ -385,7 +392,7 @@ def acceptance_check(list x,dict x0,dict alpha, ln_p, DTYPE_t ln_p0, bool unifor
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     if 'gamma_dc' in alpha.keys():
         sg=<DTYPE_t>alpha['gamma_dc']
     if 'delta_dc' in alpha.keys():
@@ -450,7 +457,7 @@ def me_acceptance_check(list x,list x0,list alpha, DTYPE_t[::1] ln_p,DTYPE_t ln_
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     for v in range(nevents):
         g0[v]=<DTYPE_t>x0[v]['gamma']
         g_s[v]=<DTYPE_t>alpha[v]['gamma']
@@ -827,7 +834,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     if 'gamma_dc' in alpha.keys():
         sg=<DTYPE_t>alpha['gamma_dc']
     if 'delta_dc' in alpha.keys():
@@ -841,7 +848,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
     else:
         qd=x['delta'];
     cdef int jump=0
-    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and  not x['gamma']==x0['gamma'] and not x['delta']==x0['delta'] and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
+    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and not (x['gamma']==x0['gamma'] and x['delta']==x0['delta']) and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
         jump=1
     if ln_p==-inf:
         return 0
diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 64be869..83ba343 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -503,9 +503,11 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return 0
 
-    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=0.5):
+    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=None):
         """Calculate acceptance"""
-        if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
+        if dc_prior is None:
+            dc_prior = getattr(self, 'dc_prior', 0.5)
+        if np.random.rand() < self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
         else:
             return {}, False, False, 0
@@ -961,7 +963,9 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
         """
         # Gaussian makes transition PDF symmetrical but some parameters can be
         # truncated parameters (gamma,delta,h,sigma)
-        if len(x) == len(x1) and len(x) > 0:
+        # (g0 and d0 are the previous source type parameters stored by a
+        # dimension jump, so are not model parameters)
+        if len([k for k in x if k not in ('g0', 'd0')]) == len([k for k in x1 if k not in ('g0', 'd0')]) and len(x) > 0:
             if dc is None:
                 dc = self.dc
             if basic_cdc is None:
@@ -1291,9 +1295,9 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         # Set DC model prior
         self.dc_prior = kwargs.get('dc_prior', .5)
         # Calculate balance vector proposal normalisation
-        d = np.linspace(-np.pi/2, np.pi/2, 10000)
-        pn = sum(np.cos(d)*gaussian_pdf(d, 0, kwargs.get('dc_sigma_d', .2)) *
-                 np.mean(np.diff(d)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
+        # (both balancing parameters are drawn from Gaussians truncated to the lune)
+        pn = ((1-2*gaussian_cdf(-np.pi/2, 0, kwargs.get('dc_sigma_d', .2))) *
+              (1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2))))
         # Add proposal normalisation to alpha
         if self.number_events > 1:
             for alpha in self.alpha:
@@ -1403,6 +1407,9 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         """
         if isinstance(self.ln_likelihood_xi, np.ndarray):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
+        # Handle multiple events (each event can jump)
+        if self.number_events > 1:
+            return self._multiple_event_acceptance(x, ln_likelihoodx, dc_prior)
         # Handle jump parameters
         if self.jump and (self.ln_likelihood_xi > -np.inf):
             # No jump - may have been accidentally picked up
@@ -1430,6 +1437,50 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         else:
             return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
 
+    def _multiple_event_acceptance(self, x, ln_likelihoodx, dc_prior=0.5):
+        """
+        Calculates acceptance for multiple events
+
+        The ratio is the product over the events, each of which can jump independently.
+
+        Args
+            x: List of model values
+            ln_likelihoodx: Joint model likelihood.
+            dc_prior: prior probability for the DC model (float or one value per event)
+
+        Returns
+            float:acceptance
+        """
+        ln_likelihoodx = float(ln_likelihoodx)
+        if ln_likelihoodx == -np.inf:
+            return 0
+        if self.ln_likelihood_xi == -np.inf:
+            return 1
+        alpha = self.alpha
+        dc_prior = np.asarray(dc_prior).flatten()
+        numerator = 1.
+        denominator = 1.
+        for i in range(self.number_events):
+            self.alpha = alpha[i]
+            p_dc = dc_prior[min(i, len(dc_prior)-1)]
+            xi_dc = self.is_dc(self.xi[i])
+            x_dc = self.is_dc(x[i])
+            numerator *= self.prior(x[i], x_dc)
+            denominator *= self.prior(self.xi[i], xi_dc)
+            if xi_dc and not x_dc:  # dc to mt jump
+                numerator *= 1-p_dc
+                denominator *= self.jump_params(x[i])*p_dc
+            elif x_dc and not xi_dc:  # mt to dc jump
+                numerator *= self.jump_params(self.xi[i])*p_dc
+                denominator *= 1-p_dc
+            else:
+                numerator *= self.transition_pdf(self.xi[i], x[i], x_dc)
+                denominator *= self.transition_pdf(x[i], self.xi[i], x_dc)
+        self.alpha = alpha
+        if not denominator > 0:
+            return 1
+        return min(1, numerator/denominator*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
+
     def iterate(self, *args, **kwargs):
         """
         Iterates new sample
@@ -1444,7 +1495,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
             elif isinstance(self.p_dc, list):
                 for i, pdc in enumerate(self.p_dc):
                     logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
-        if self.jump:
+        if self.jump and self.number_events == 1:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
         return MTs, end
-- 
2.43.0


From 15b55db693f82edb967a89cca3edbf3891385bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 17/22] fix: scalar likelihoods in the fallback Markov-chain
 acceptance

The trans-dimensional acceptance could not take the log-PDF objects the
chain hands it, and the fallback multiple-try scan treated an accepted
log-likelihood of exactly 0 as a rejection.
---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 83ba343..adaf63e 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1405,8 +1405,10 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Returns
             float:acceptance
         """
-        if isinstance(self.ln_likelihood_xi, np.ndarray):
+        if isinstance(self.ln_likelihood_xi, (np.ndarray, LnPDF)):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
+        if isinstance(ln_likelihoodx, (np.ndarray, LnPDF)):
+            ln_likelihoodx = float(ln_likelihoodx)
         # Handle multiple events (each event can jump)
         if self.number_events > 1:
             return self._multiple_event_acceptance(x, ln_likelihoodx, dc_prior)
@@ -1451,7 +1453,6 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Returns
             float:acceptance
         """
-        ln_likelihoodx = float(ln_likelihoodx)
         if ln_likelihoodx == -np.inf:
             return 0
         if self.ln_likelihood_xi == -np.inf:
@@ -1688,7 +1689,7 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                 # Get acceptance result
                 oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, np.asarray(ln_pi_1).flatten()[u],
                                                                                                                           False, dc_prior=getattr(self, 'dc_prior', False))
-                if oln_pi_1:
+                if not isinstance(oln_pi_1, bool):
                     # If accepted sample, try to get the sacale_factor
                     if not isinstance(scale_factori_1, bool):
                         oscale_factori_1 = scale_factori_1[u]
-- 
2.43.0


From 93bf31107610539a4a1cdb9c06da274adaa3be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 18/22] fix: keep adapted proposal widths positive, keep the
 dimension balancing parameters and wrap the strike in range

---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  |  2 +-
 .../algorithms/markov_chain_monte_carlo.py    | 24 ++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 8e654ab..8a3a4b3 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -220,7 +220,7 @@ cdef DTYPE_t new_delta(DTYPE_t d0, DTYPE_t d_s):
 @cython.cdivision(True)
 cdef DTYPE_t new_kappa(DTYPE_t k0, DTYPE_t k_s):
     cdef DTYPE_t kn=k_s*np.random.randn(1)+k0
-    if fabs(kn)<PI2:
+    if fabs(kn)>=PI2:
         kn=fmod(kn,PI2)
     if kn<0.0:
         kn+=PI2
diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index adaf63e..8f56205 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -383,23 +383,29 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             try:
                 if type(self.alpha) == dict:
                     self.alpha = self._old_alpha.copy()
-                else:  # list
+                elif type(self.alpha) == list:
                     self.alpha = self._old_alpha[:]
+                else:
+                    self.alpha = self._old_alpha
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # No previous parameters to revert to
+                ratio = 1/self.max_acceptance_rate
         elif not rate:
             # revert to old alpha and change ratio
             try:
                 if type(self.alpha) == dict:
                     self.alpha = self._old_alpha.copy()
-                else:  # list
+                elif type(self.alpha) == list:
                     self.alpha = self._old_alpha[:]
+                else:
+                    self.alpha = self._old_alpha
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # No previous parameters to revert to
+                ratio = 0.1
         return ratio
 
     def output(self, *args, **kwargs):
@@ -448,17 +454,19 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if isinstance(alpha, dict):
             newAlpha = {}
             for key in alpha.keys():
+                newAlpha[key] = alpha[key]
+                # The dimension balancing parameters are not adapted
                 if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
-                    newAlpha[key] = alpha[key]*ratio
-                    if newAlpha[key] > self.max_alpha[key]:
-                        newAlpha[key] = alpha[key]
+                    new_value = alpha[key]*ratio
+                    if 0 < new_value <= self.max_alpha[key]:
+                        newAlpha[key] = new_value
         elif isinstance(alpha, list):
             newAlpha = []
             for i, alph in enumerate(alpha):
                 newAlpha.append(self._modify_alpha(alph, ratio))
         else:
             newAlpha = alpha*ratio
-            if newAlpha > self.max_alpha:
+            if not 0 < newAlpha <= self.max_alpha:
                 newAlpha = alpha
         return newAlpha
 
-- 
2.43.0


From ada941f3db6a1fe75a5f3c07b06178795602aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 19/22] fix: propose each event of a joint chain from its own
 model

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 8f56205..9dc54a7 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1106,15 +1106,19 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             if not isinstance(all_x, list):
                 raise TypeError('Expect self.xi to be list not {}\n self.xi = {}'.format(type(self.xi), self.xi))
             all_alpha = self.alpha
+            all_dc = self.dc
             x = []
             if not isinstance(all_x[0], dict):
                 all_x = self.convert_sample(all_x)
             for i, xi in enumerate(all_x):
                 self.xi = xi
                 self.alpha = all_alpha[i]
+                # Each event has its own model
+                self.dc = all_dc[i] if isinstance(all_dc, list) else all_dc
                 x.append(self._new_sample_single(*args, **kwargs))
             self.xi = all_x
             self.alpha = all_alpha
+            self.dc = all_dc
         else:
             x = self._new_sample_single(*args, **kwargs)
         self.xi_1 = x
-- 
2.43.0


From 67a8bff07a9357d988d0624f2bf4fd1135462168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 20/22] fix: keep the probability of single samples and six 3x3
 tensors in plotted moment tensors

---
 src/MTfit/plot/plot_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 39f4091..359202f 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -207,7 +207,7 @@ class MTData(object):
         # convert MTs to MT6
         if not isinstance(MTs, np.ndarray):
             MTs = np.array(MTs)
-        if 6 not in MTs.shape:
+        if 6 not in MTs.shape or (len(MTs.shape) == 3 and MTs.shape[-2:] == (3, 3)):
             # MT 33 as (:,3,3) 3 dimensional array
             if MTs.shape[-2:] == (3, 3):
                 # 3x3 matrix
@@ -242,7 +242,7 @@ class MTData(object):
         """
         converted = self._get_converted(arg)
         probability = []
-        if len(self.probability) > 1:
+        if len(self.probability) > 1 or len(self.probability) == len(self):
             try:
                 probability = self.probability.__getitem__(arg)
             except Exception:
@@ -756,7 +756,7 @@ class MTData(object):
         Returns:
             MTData:  New MTData object with max probability MT samples.
         """
-        if not len(self.probability) > 1:
+        if not (len(self.probability) > 1 or len(self.probability) == len(self)):
             raise ValueError('maximum probability requires probability to be set.')
         idx = self.probability == self.probability.max()
         new = self[:, idx]
-- 
2.43.0


From 49227bae26856d6c43f9cfc6f62c1ad96c052843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 21/22] fix: draw the jump proposal's lune latitude in the
 compiled sampler as the Python sampler does

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 8a3a4b3..35fde5c 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -322,7 +322,7 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline tuple flat_jump_params(DTYPE_t a,DTYPE_t b,):
-    return  (np.random.rand()*2-1)*pi/6,acos(np.random.rand()*2-1)-pi/2
+    return  (np.random.rand()*2-1)*pi/6,(np.random.rand()*2-1)*pi/2
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 64484d640f29599ef7791e7c5e1f8acb1ed0de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 22/22] fix: match relative amplitude stations by name, keep
 pair terms after filtering and each event's own task when reused

---
 src/MTfit/inversion.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index ec09ae4..df4ec91 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -563,7 +563,8 @@ class MultipleEventsForwardTask(object):
         # If combining outputs make a single ln_pdf else make a list of them
         if self._combine:
             # Assuming that location uncertainty matches for each event (i.e if samples used, event is still co-located...)
-            ln_p_total = np.matrix(np.zeros((self.location_sample_size, self.mts[0].shape[1])))
+            n_rows = 1 if self._marginalise_relative else self.location_sample_size
+            ln_p_total = np.matrix(np.zeros((n_rows, self.mts[0].shape[1])))
         else:
             ln_p_total = []
         # Set non-zero array
@@ -608,7 +609,7 @@ class MultipleEventsForwardTask(object):
                 self.mts[i] = np.ascontiguousarray(self.mts[i][:, non_zeros])
                 mt = self.mts[i]
             # If forward tasks are being re-used and one doesn't exist or no tasks are re-used
-            if self._reuse and len(self.forward_tasks) < len(self.mts) or not self._reuse:
+            if not self._reuse or len(self.forward_tasks) <= i:
                 forward_task = ForwardTask(mt, a_polarity, self.error_polarity[i], a1_amplitude_ratio, a2_amplitude_ratio, self.amplitude_ratio[i],
                                            self.percentage_error1_amplitude_ratio[i], self.percentage_error2_amplitude_ratio[i], a_polarity_prob,
                                            self.polarity_prob[i], self.location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
@@ -645,13 +646,13 @@ class MultipleEventsForwardTask(object):
             # Update mts
             if not self._return_zero:
                 # Update ln_pdfs etc. for non-zeros
-                if sum(non_zeros) != sum(np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()):
-                    non_zeros[non_zeros] = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
+                if sum(non_zeros) != sum(np.array(np.max(ln_p_total, 0) > -np.inf).flatten()):
+                    non_zeros[non_zeros] = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
                     for j in range(i+1):
-                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.sum(ln_p_total, 0) > -np.inf). flatten()])
-                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    ln_p_total = ln_p_total[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()]
+                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.max(ln_p_total, 0) > -np.inf). flatten()])
+                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten(), :, :])
+                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten(), :, :])
+                    ln_p_total = ln_p_total[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten()]
                     mt = self.mts[i]
             #####
             if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))) and not self._combine:
@@ -723,7 +724,7 @@ class MultipleEventsForwardTask(object):
                                     ln_p_amp_rat += np.log(np.matrix(self.location_sample_multipliers).T)
                             # Marginalise if marginalise_relative flag is True
                             if self.location_sample_size > 1 and self._marginalise_relative:
-                                ln_p_amp_rat = ln_marginalise(ln_p_amp_rat, _cython=cprobability is not False)
+                                ln_p_amp_rat = ln_marginalise(ln_p_amp_rat)
                             # Combine ln_p_total and amp rat
                             if cprobability and not _CYTHON_TESTS:
                                 ln_p_total = cprobability.ln_combine(np.ascontiguousarray(ln_p_total), ln_p_amp_rat)
@@ -736,11 +737,12 @@ class MultipleEventsForwardTask(object):
                                 return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                             # Update mts for non-zeros
                             if not self._return_zero:
-                                non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                 if sum(non_zeros) != sum(non_zero_indices):
                                     non_zeros[non_zeros] = non_zero_indices
-                                    for j in range(i+1):
-                                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
+                                    for k in range(i+1):
+                                        self.mts[k] = np.ascontiguousarray(self.mts[k][:, non_zero_indices])
+                                    mt = self.mts[i]
                                     ln_p_total = np.ascontiguousarray(ln_p_total[:, non_zero_indices])
                                     scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
                                     scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
@@ -782,7 +784,7 @@ class MultipleEventsForwardTask(object):
                                             ln_p_extensions += np.log(np.matrix(self.location_sample_multipliers).T)
                                     # Marginalise if marginalise_relative flag is True
                                     if self.location_sample_size > 1 and self._marginalise_relative:
-                                        ln_p_extensions = ln_marginalise(ln_p_extensions, _cython=cprobability is not False)
+                                        ln_p_extensions = ln_marginalise(ln_p_extensions)
                                     if cprobability and not _CYTHON_TESTS:
                                         ln_p_total = cprobability.ln_combine(ln_p_total, ln_p_extensions)
                                     else:
@@ -794,11 +796,11 @@ class MultipleEventsForwardTask(object):
                                         return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                                     # Update mts for non-zeros
                                     if not self._return_zero:
-                                        non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                        non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                         if sum(non_zeros) != sum(non_zero_indices):
                                             non_zeros[non_zeros] = non_zero_indices
-                                            for j in range(i+1):
-                                                self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
+                                            for k in range(i+1):
+                                                self.mts[k] = np.ascontiguousarray(self.mts[k][:, non_zero_indices])
                                             ln_p_total = np.ascontiguousarray(ln_p_total[:, non_zero_indices])
                                             for key in extension_scale.keys():
                                                 extension_scale[key] = np.ascontiguousarray(extension_scale[key][:, non_zero_indices, :, :])
@@ -3188,7 +3190,8 @@ def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_statio
     selected_stations = list(set(relative_amplitude_stations_i) & set(relative_amplitude_stations_j))
     # Get indices for each event
     indices_i = [i for i, u in enumerate(relative_amplitude_stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(relative_amplitude_stations_j) if u in selected_stations]
+    # Station order can differ between the events, so follow the order of event i
+    indices_j = [list(relative_amplitude_stations_j).index(relative_amplitude_stations_i[i]) for i in indices_i]
     # Get parameters for event i
     a_relative_amplitude_ratio_i = a_relative_amplitude_ratio_i[indices_i]
     relative_amplitude_i = relative_amplitude_i[indices_i]
@@ -3223,7 +3226,8 @@ def _intersect_stations_extension_data(extension_data_i, extension_data_j):
     selected_stations = list(set(stations_i) & set(stations_j))
     # Get indices for each event
     indices_i = [i for i, u in enumerate(stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(stations_j) if u in selected_stations]
+    # Station order can differ between the events, so follow the order of event i
+    indices_j = [list(stations_j).index(stations_i[i]) for i in indices_i]
     # Get parameters for event i
     for key in extension_data_i:
         extension_data_i[key] = np.ascontiguousarray(extension_data_i[key][indices_i])
-- 
2.43.0

