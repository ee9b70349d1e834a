From e906702303d175de060571c159e93045d0412f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 01/27] fix: define the distance modulus in derived() when a
 distance is given

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..750e85a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -255,6 +255,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From d402f243c19dee13538242b609785ef2fb89cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 02/27] fix: size mtol in derived() by the output responses

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 750e85a..f2f1cdb 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -307,7 +307,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From dac9e786afc200ac12fabd4f0516ae269a6f5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 03/27] fix: derived() for responses without a solar magnitude

---
 src/kcorrect/kcorrect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index f2f1cdb..44bd769 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -300,7 +300,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                solar_magnitude = 0.  # leaves mtol per (absolute) maggy
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From bd613324936eed7fedc89c481c14906d3dbb979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 04/27] fix: reconstructed absolute magnitudes with band_shift
 or other output bands

---
 src/kcorrect/kcorrect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 44bd769..2c71f3e 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -583,8 +583,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
-                                            band_shift=band_shift)
+            # K-correct the model maggies in the input bands, as for the data
+            omaggies = self.reconstruct(redshift=redshift,
+                                        coeffs=coeffs)[..., self.imap]
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
             omags = np.zeros(omaggies.shape, dtype=np.float32)
-- 
2.43.0


From 6a223bdcff7c06c085f56275e86d06f775a35da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 05/27] fix: return Monte Carlo maggies for redshifts out of
 range

---
 src/kcorrect/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..7aebd34 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,9 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
+                maggies_mc[:, :] = maggies[:, np.newaxis]
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From 0769861d248e60134bf2c9423c7397436ab851c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 06/27] fix: fit single objects in a single band

---
 src/kcorrect/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 7aebd34..69e366a 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -413,13 +413,13 @@ class Fitter(object):
         if(n == 1):
             if(mc == 0):
                 coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
+                                          maggies=maggies.reshape(-1),
+                                          ivar=ivar.reshape(-1),
                                           mc=mc)
             else:
                 coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                                                                 maggies=maggies.reshape(-1),
+                                                                 ivar=ivar.reshape(-1),
                                                                  mc=mc)
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
-- 
2.43.0


From 6488d1911037ef8a04fa407375979d684b674aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 07/27] fix: shape of Monte Carlo results for one-element
 redshift arrays

---
 src/kcorrect/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 69e366a..e29439b 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -424,8 +424,8 @@ class Fitter(object):
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
                 if(mc > 0):
-                    coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    coeffs_mc = coeffs_mc.reshape((1,) + coeffs_mc.shape)
+                    maggies_mc = maggies_mc.reshape((1,) + maggies_mc.shape)
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From 200132b861e2b898851d42325e97ca2880db2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 08/27] fix: KcorrectGST.to_ab() without ivar, and without
 altering its inputs

---
 src/kcorrect/kcorrect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 2c71f3e..38b697c 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1148,7 +1148,9 @@ class KcorrectGST(Kcorrect):
 
         fit_coeffs() and absmag() call this on their inputs if abcorrect is True.
 """
+        maggies = np.array(maggies, dtype=np.float32)
         if(ivar is not None):
+            ivar = np.array(ivar, dtype=np.float32)
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
@@ -1156,7 +1158,6 @@ class KcorrectGST(Kcorrect):
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From f5a7edd31065233b0d7336be5f18c21a7678f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 09/27] fix: error_floor() for integer ivar

---
 src/kcorrect/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..ca89e30 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -210,6 +210,8 @@ def error_floor(floor=None, maggies=None, ivar=None):
     floor = np.array(floor)
     maggies = np.array(maggies)
     ivar = np.array(ivar)
+    if(not np.issubdtype(ivar.dtype, np.floating)):
+        ivar = ivar.astype(np.float64)
 
     if(maggies.ndim == 1):
         array = False
-- 
2.43.0


From f7bc14ab8820707636a38990ef21faa68eb62bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 10/27] fix: apply extinction to ivar too in
 sdss_asinh_to_maggies()

---
 src/kcorrect/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index ca89e30..95c3485 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -309,6 +309,7 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
+            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
             maggies_ivar[..., k] = 1. / maggies_err**2
 
     if(mag_err is None):
-- 
2.43.0


From ef6490cb52f4c06a7771c00975ff80614af64805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 11/27] fix: write response names in Kcorrect.tofits() under
 numpy 2

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 38b697c..55c98bb 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -745,19 +745,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', np.str_, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', np.str_, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', np.str_, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From 16608b73919111527810b0dc56937bbfb9bbedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 12/27] fix: store redshift_range as floating point in
 Kcorrect.tofits()

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 55c98bb..9a4b46e 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -734,7 +734,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
-- 
2.43.0


From 67010af36468486c2ff805aba6831af1f00513b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 13/27] fix: restore scalar parameters in Kcorrect.fromfits()

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 9a4b46e..e176c96 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -793,9 +793,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
         self.redshifts = hdul['REDSHIFTS'].data
         self.responses = list(hdul['RESPONSES'].data['responses'])
-- 
2.43.0


From 3bacc0ee954f5182320a7e6625a44f6ae463ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 14/27] fix: load the output responses in Kcorrect.fromfits()

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index e176c96..ecbf145 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -803,7 +803,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
 
         f = kcorrect.response.ResponseDict()
-        for response in self.responses:
+        for response in self.responses + self.responses_out:
             f.load_response(response)
 
         A = hdul['A'].data
-- 
2.43.0


From 9d68aac6e54cf5f60732f03548831d154acfd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 15/27] fix: integrate over wavelength (argument order of
 trapezoid)

---
 src/kcorrect/response.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..8ec97d7 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -392,17 +392,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
@@ -424,11 +424,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 2ce989468b8433721f011edb6868eb5b96dc1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 16/27] fix: project onto bands lying between two wavelengths
 of the spectrum

---
 src/kcorrect/response.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 8ec97d7..07cbc5e 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -373,13 +373,13 @@ class Response(object):
         # Find SED wavelengths to integrate over
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         ikeep = np.where(keep)[0]
-        if(len(ikeep) == 0):
-            return(0.)
-
-        if(ikeep[0] > 0):
-            keep[ikeep[0] - 1] = 1
-        if(ikeep[-1] < len(sed_wave) - 1):
-            keep[ikeep[-1] + 1] = 1
+        if(len(ikeep) > 0):
+            if(ikeep[0] > 0):
+                keep[ikeep[0] - 1] = 1
+            if(ikeep[-1] < len(sed_wave) - 1):
+                keep[ikeep[-1] + 1] = 1
+        elif((self.wave[-1] < sed_wave[0]) | (self.wave[0] > sed_wave[-1])):
+            return(np.squeeze(np.zeros(nsed, dtype=np.float32)))
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From 4b6f27bc44a0d08bd51a1b7cfb02f2a302339c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 17/27] fix: do not keep an empty entry for a response that
 failed to load

---
 src/kcorrect/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 07cbc5e..2244c98 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,9 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        new_response = Response()
+        new_response.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = new_response
         return
 
 
-- 
2.43.0


From 3de017d3eac278663a2fb89192065ae55e2f5ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 18/27] fix: size absmag_mc() results by the output responses

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index ecbf145..e53a20c 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -673,11 +673,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape_mc = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape_mc, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape_mc, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape_mc, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From fb41a7d4dd9c5bbdabf209b9fbc5c7a262fa9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 19/27] fix: absmag() returns -9999 for NaN maggies or ivar

---
 src/kcorrect/kcorrect.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index e53a20c..a8bec67 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -565,8 +565,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         use_maggies = maggies[..., self.imap]
         use_ivar = ivar[..., self.imap]
 
-        gd = np.where((use_maggies > 0.) & (use_ivar > 0.))
-        bd = np.where((use_maggies <= 0.) | (use_ivar <= 0.))
+        isgd = (use_maggies > 0.) & (use_ivar > 0.)
+        gd = np.where(isgd)
+        bd = np.where(~isgd)
 
         mags = np.zeros(use_maggies.shape, dtype=np.float32)
         mags[gd] = - 2.5 * np.log10(use_maggies[gd])
@@ -599,8 +600,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
-            gd = np.where(use_ivar > 0.)
-            bd = np.where(use_ivar <= 0.)
+            isgd = use_ivar > 0.
+            gd = np.where(isgd)
+            bd = np.where(~isgd)
             
             lmags = np.zeros(use_maggies.shape, dtype=np.float32)
             lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
-- 
2.43.0


From 727f8a857c83c178e4735d9362f9b269f3390649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 20/27] fix: absmag_limit is -9999 when all coefficients are
 zero

---
 src/kcorrect/kcorrect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index a8bec67..413e7f8 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -600,7 +600,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
-            isgd = use_ivar > 0.
+            # the limit needs positive coefficients too
+            isgd = (use_ivar > 0.) & (coeffs.sum(axis=-1, keepdims=True) > 0.)
             gd = np.where(isgd)
             bd = np.where(~isgd)
             
-- 
2.43.0


From 5951a87324e1989e28fe7a882a3a2e11f142c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 21/27] fix: do not round redshifts out of the grid in
 _reconstruct()

---
 src/kcorrect/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index e29439b..622c6d2 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -494,7 +494,9 @@ class Fitter(object):
 
         # Consider blueward shift of bandpass due to redshift
         # of observation and due to band_shift
-        shift = (1. + redshift) * (1. + band_shift) - 1.
+        # (this is (1. + redshift) * (1. + band_shift) - 1., but does not
+        # round out of the grid for zero redshift or band_shift)
+        shift = redshift + band_shift * (1. + redshift)
 
         # Calculate maggies
         try:
-- 
2.43.0


From e98aa080916783646e1383f363a1c70e40ee63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 22/27] fix: end the redshift grid exactly at the maximum
 redshift

---
 src/kcorrect/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 622c6d2..1cb5a81 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -71,6 +71,8 @@ class Fitter(object):
                           (self.redshift_range[1] - self.redshift_range[0]) *
                           np.arange(nredshift, dtype=np.float32) /
                           np.float32(nredshift - 1))
+        # Guarantee that the grid reaches the maximum despite rounding
+        self.redshifts[-1] = self.redshift_range[1]
         return
 
     def _interpolate_Amatrix(self, redshifts=None, A=None):
-- 
2.43.0


From cd7f9e26e4387ddecea79f72ac5d3e0f3affd675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 23/27] fix: raise ValueError in utils, not a string

---
 src/kcorrect/utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 95c3485..dc4e14f 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -158,16 +158,16 @@ def sdss_ab_correct(maggies=None, ivar=None,
         ivar = np.float32(ivar)
 
         if(maggies.shape != ivar.shape):
-            raise("maggies and ivar must be the same shape")
+            raise ValueError("maggies and ivar must be the same shape")
 
     abfix = np.array(abfix, dtype=np.float32)
     if(abfix.shape != (5,)):
-        raise("abfix must have 5 values")
+        raise ValueError("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
     if(maggies.ndim == 1):
         if(maggies.size != 5):
-            raise("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+            raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = maggies * abfac
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
@@ -219,10 +219,10 @@ def error_floor(floor=None, maggies=None, ivar=None):
         array = True
 
     if(maggies.shape[-1] != floor.shape[0]):
-        raise("floor must have same number of responses as maggies")
+        raise ValueError("floor must have same number of responses as maggies")
 
     if(maggies.shape != ivar.shape):
-        raise("maggies and ivar must be same shape")
+        raise ValueError("maggies and ivar must be same shape")
 
     if(array):
         for i in np.arange(floor.size):
@@ -280,17 +280,17 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
     if(mag_err is not None):
         mag_err = np.float32(mag_err)
         if(mag.shape != mag_err.shape):
-            raise("mag and mag_err must be the same shape")
+            raise ValueError("mag and mag_err must be the same shape")
 
     if(extinction is not None):
         extinction = np.float32(extinction)
         if(mag.shape != extinction.shape):
-            raise("mag and extinction must be the same shape")
+            raise ValueError("mag and extinction must be the same shape")
     else:
         extinction = np.zeros(mag.shape, dtype=np.float32)
 
     if(mag.shape[-1] != 5):
-        raise("mag must have 5 values per object")
+        raise ValueError("mag must have 5 values per object")
 
     b0 = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10],
                   dtype=np.float32)
-- 
2.43.0


From c697545fcfc688e3dfccb4bd838026c921ad53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 24/27] fix: sdss_ab_correct() requires 5 bands for 2-D input
 too

---
 src/kcorrect/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index dc4e14f..12675d4 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -165,9 +165,10 @@ def sdss_ab_correct(maggies=None, ivar=None,
         raise ValueError("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
+    if(maggies.shape[-1] != 5):
+        raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+
     if(maggies.ndim == 1):
-        if(maggies.size != 5):
-            raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = maggies * abfac
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
-- 
2.43.0


From 47cc242a491d8f74cd4cb7730da81d64ef540084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 25/27] fix: Kcorrect.fromfits() on an existing object updates
 imap

---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 413e7f8..a3a55e8 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -805,6 +805,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses = list(hdul['RESPONSES'].data['responses'])
         self.responses_map = list(hdul['RESPONSES_MAP'].data['responses_map'])
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
+        self.imap = np.array([self.responses.index(r)
+                              for r in self.responses_map], dtype=int)
 
         f = kcorrect.response.ResponseDict()
         for response in self.responses + self.responses_out:
-- 
2.43.0


From 2d8df243afd9d3c09d7578f2a61867ccafb717e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 26/27] fix: all_responses() checks the files in response_dir
 itself

---
 src/kcorrect/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 2244c98..4615974 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -69,7 +69,8 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 valid = True
                 if(check_validity):
                     try:
-                        f.load_response(response)
+                        new_response = Response(filename=os.path.abspath(os.path.join(rdir, filename)))
+                        f.setdefault(response, new_response)
                     except:
                         valid = False
                 if(valid):
-- 
2.43.0


From d099a98a17862e2ee6fb943eba75ccecca704f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 27/27] fix: an invalid flux in a band with zero inverse
 variance made the fit raise

---
 src/kcorrect/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 1cb5a81..69d5f0c 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -207,7 +207,7 @@ class Fitter(object):
                 maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
                 maggies_mc[:, :] = maggies[:, np.newaxis]
                 return(default_zeros, coeffs_mc, maggies_mc)
-        b = maggies * inverr
+        b = np.where(inverr > 0, maggies, 0.) * inverr
 
         try:
             coeffs, rnorm = optimize.nnls(np.float64(A), np.float64(b))
@@ -225,7 +225,7 @@ class Fitter(object):
             for imc in np.arange(mc, dtype=int):
                 maggies_mc[:, imc] = maggies
                 maggies_mc[igd, imc] = maggies_mc[igd, imc] + np.random.normal(size=len(igd)) * err
-                b_mc = maggies_mc[:, imc] * inverr
+                b_mc = np.where(inverr > 0, maggies_mc[:, imc], 0.) * inverr
                 try:
                     tmp_coeffs_mc, rnorm = optimize.nnls(np.float64(A), np.float64(b_mc))
                 except RuntimeError:
-- 
2.43.0

