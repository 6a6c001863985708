From e9b975c9dd127c6406f6a77c13214252e786a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 01/37] fix: hadec2altaz returns altitudes below the horizon as
 negative angles, not 270..360

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index e1db337..75bc837 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -354,7 +354,7 @@ def hadec2altaz(ha,dec) :
     z = cha * cdec * clat + sdec * slat
     r = np.hypot(x, y)
     az  = arctan2d(y,x)
-    alt = arctan2d(z,r)
+    alt = np.rad2deg(np.arctan2(z,r)) # in -90..90 (arctan2d would wrap below horizon values)
     return alt,az
 
 def altaz2hadec(alt,az) :
-- 
2.43.0


From 0ca7483fd3fd65b0dcf5d0fe5522a42598c699d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 02/37] fix: undo_aberration is accurate close to the poles
 (first order inverse on the sphere, not on ra,dec)

---
 py/desimeter/transform/radec2tan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index 75bc837..71cbfbf 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -280,9 +280,9 @@ def undo_aberration(ra,dec,mjd, use_astropy = False) :
         alt: float or 1D np.array refracted altitude in degrees
 
     """
-    # at first order
+    # at first order, in cartesian coordinates to be accurate close to the poles too
     ra2,dec2 = apply_aberration(ra,dec,mjd,use_astropy)
-    return 2*ra-ra2 , 2*dec-dec2
+    return getLONLAT(2*getXYZ(ra,dec)-getXYZ(ra2,dec2))
 
 def apply_refraction(alt) :
     """ apply refraction
-- 
2.43.0


From b3dee9c6c81588d9125b1f5f23d942383b11ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 03/37] fix: undo_refraction does not modify the input altitude
 array

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index 71cbfbf..ba8a080 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -311,7 +311,7 @@ def undo_refraction(alt) :
     for _ in range(2) :
         da   = apply_refraction(alt) - alt
         dda  = da-daprev
-        alt -= dda
+        alt = alt - dda # not in place: alt can be an array of the caller
         daprev = da
     return alt
 
-- 
2.43.0


From 32a00edd7009ff0db0f2813cc711569092c71cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 04/37] fix: delta_angle accepts any mixture of scalars and
 vectors, as documented

---
 py/desimeter/transform/pos2ptl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index f25dfad..63d998b 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -290,9 +290,10 @@ def delta_angle(u_start, u_final, direction=0):
     '''
     u_start = _to_numpy(u_start)
     u_final = _to_numpy(u_final)
-    direction = np.ones(np.shape(u_start)) * _to_numpy(direction)
-    direction = np.sign(direction) # ensure vals are only +1, 0, or -1
-    natural_delta = u_final - u_start
+    direction = np.sign(_to_numpy(direction)) # ensure vals are only +1, 0, or -1
+    # any of the inputs can be a vector: give them all the same length
+    natural_delta = u_final - u_start + np.zeros(np.shape(direction))
+    direction = direction + np.zeros(np.shape(natural_delta))
     zero_dir = direction == 0
     direction[zero_dir] = np.sign(natural_delta)[zero_dir]
     opposites = direction != np.sign(natural_delta)
-- 
2.43.0


From 2d574013e7450f9edb1d58c11c4dd210cb670cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 05/37] fix: z2r and z2s work (np.interp needs increasing
 abscissae, Z decreases with R)

---
 py/desimeter/transform/rszn_lookups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/rszn_lookups.py b/py/desimeter/transform/rszn_lookups.py
index 9edd713..b826a75 100644
--- a/py/desimeter/transform/rszn_lookups.py
+++ b/py/desimeter/transform/rszn_lookups.py
@@ -47,7 +47,8 @@ def r2z(r):
 
 def z2r(z):
     '''Convert z (mm) to r (mm) on a nominal Echo22 focal surface.'''
-    return np.interp(z, Z, R, left=oob, right=oob)
+    # Z decreases with R, np.interp needs increasing abscissae
+    return np.interp(z, Z[::-1], R[::-1], left=oob, right=oob)
 
 def r2n(r):
     '''Convert r (mm) to n (deg) on a nominal Echo22 focal surface.'''
-- 
2.43.0


From 48d810fa95be4ddfe3fccccb88c9ebfc37c73e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 06/37] fix: SimpleCorr.fit is valid for any rotation angle (0,
 90, 180 degrees) and does not keep a previous angle

---
 py/desimeter/simplecorr.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 64f9c01..f3ab07f 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -135,16 +135,12 @@ class SimpleCorr(object):
         sa=(ay[1]-ax[2])/sxx_p_syy
         ca=(ax[1]+ay[2])/sxx_p_syy
 
-        if sa != 0 :
-            self.rot_deg = arctan2d(sa,ca)
-
-            sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-            sxx =(ax[1]-sxy*sa)/ca
-            syy = (ay[1]-sxy*ca)/sa
-        else :
-            sxx = ax[1]
-            syy = ay[2]
-            sxy = ax[2]
+        self.rot_deg = arctan2d(sa,ca)
+
+        # solution of the relations above, valid for any angle
+        sxy = ax[1]*sa+ax[2]*ca
+        sxx = ax[1]*ca-ax[2]*sa
+        syy = ay[1]*sa+ay[2]*ca
         self.sxx = sxx
         self.syy = syy
         self.sxy = sxy
-- 
2.43.0


From c2af99b6d9c1a400eea2ccc5958acaeda2194bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 07/37] fix: TanCorr.fit is valid for any rotation angle (nan
 at 0, 90, 180 degrees)

---
 py/desimeter/fieldmodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6fce584..a90354a 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -423,9 +423,10 @@ class TanCorr(object):
 
         self.rot_deg = arctan2d(sa,ca)
 
-        sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-        sxx =(ax[1]-sxy*sa)/ca
-        syy = (ay[1]-sxy*ca)/sa
+        # solution of the relations above, valid for any angle
+        sxy = ax[1]*sa+ax[2]*ca
+        sxx = ax[1]*ca-ax[2]*sa
+        syy = ay[1]*sa+ay[2]*ca
 
         self.sxx = sxx
         self.syy = syy
-- 
2.43.0


From c32e2fa61b5b5478cfec579cd42e5cf8f6116f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 08/37] fix: TanCorr.apply_inverse is the inverse of apply also
 with a pointing offset

---
 py/desimeter/fieldmodel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index a90354a..9654461 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -444,10 +444,10 @@ class TanCorr(object):
         det = self.sxx*self.syy - self.sxy**2
         scale_matrix = np.array([[self.syy,-self.sxy],[-self.sxy,self.sxx]])/det
         rot_matrix = rot2deg(-self.rot_deg)
-        ha,dec  = xy2hadec(x,y,0,0)
-        x1t,y1t = hadec2xy(ha,dec,self.dha,self.ddec)
-        xy=rot_matrix.dot(scale_matrix.dot(np.array([x1t,y1t])))
-        return xy[0],xy[1]
+        # mirror order of apply
+        xy=rot_matrix.dot(scale_matrix.dot(np.array([x,y])))
+        ha,dec = xy2hadec(xy[0],xy[1],self.dha,self.ddec)
+        return hadec2xy(ha,dec,0,0)
 
 def fieldrot(ra,dec,mjd,lst_deg,hexrot_deg=0) :
     """
-- 
2.43.0


From faacc4f4a01ce92ac0a238c7839c27b53eed24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 09/37] fix: SimpleCorr and TanCorr can read back their own
 JSON

---
 py/desimeter/fieldmodel.py | 2 +-
 py/desimeter/simplecorr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 9654461..4f0918d 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -338,7 +338,7 @@ class TanCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Tangent Plane Correction"
         assert params['version'] == '1'
         tx.dha = params['dha']
         tx.ddec = params['ddec']
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index f3ab07f..a397232 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -36,7 +36,7 @@ class SimpleCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Simple Correction"
         assert params['version'] == '1'
         tx.dx = params['dx']
         tx.dy = params['dy']
-- 
2.43.0


From 2365cf513c142741fa791022bd8fbd3736564602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 10/37] fix: FieldModel keeps its precession, aberration,
 polar_misalignment options in JSON

---
 py/desimeter/fieldmodel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 4f0918d..6b842c8 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -51,6 +51,10 @@ class FieldModel(object):
         params['adc1'] = self.adc1
         params['adc2'] = self.adc2
 
+        params['precession'] = self.precession
+        params['aberration'] = self.aberration
+        params['polar_misalignment'] = self.polar_misalignment
+
         params['sxx'] = self.sxx
         params['syy'] = self.syy
         params['sxy'] = self.sxy
@@ -75,6 +79,11 @@ class FieldModel(object):
         tx.adc1 = params['adc1']
         tx.adc2 = params['adc2']
 
+        # not in older files
+        for k in ['precession', 'aberration', 'polar_misalignment'] :
+            if k in params :
+                setattr(tx, k, params[k])
+
         tx.sxx = params['sxx']
         tx.syy = params['syy']
         tx.sxy = params['sxy']
-- 
2.43.0


From 84dd2ed816818c0efe7151c56181561874a864ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 11/37] fix: dfieldrotdt_empirical_model with mixed scalar and
 array arguments

A scalar ra with an array dec (or sidereal time) silently returned the rate
of the first element only.
---
 py/desimeter/fieldmodel.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6b842c8..f0ae1f0 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -523,15 +523,14 @@ def dfieldrotdt_empirical_model(ra,dec,lst_deg) :
     # based on the output of the script desi_fit_field_rotation_rate.
     # Result of fit on data/guide_data_20200415.csv + guide_20201215_with_hexrot.csv
 
-    scalar = np.isscalar(ra)
-    if scalar :
-        ra  = np.atleast_1d(ra)
-        dec = np.atleast_1d(dec)
+    # scalar result only if all inputs are scalars
+    scalar = np.ndim(ra)==0 and np.ndim(dec)==0 and np.ndim(lst_deg)==0
+    dec = np.atleast_1d(dec)
 
     if np.any(np.abs(dec)>90.) :
         raise ValueError("Unphysical Dec in degrees: {}".format(dec))
 
-    ha = (lst_deg - ra)
+    ha = np.atleast_1d(np.asarray(lst_deg) - np.asarray(ra))
     ha = ha%360.
     ha[ha>180.] -= 360.
 
-- 
2.43.0


From b55d1f4d5a76e9fb86b4b0f7c582db751eefd24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 12/37] fix: match_positioners when no spot is within reach of
 any positioner

---
 py/desimeter/match_positioners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index ff68367..50226d5 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -130,7 +130,7 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
                           fvc['X_FP'].data, fvc['Y_FP'].data,
                           np.max(metrarmlen)+0.1)
     okdistance = np.array([d0 < a0
-                           for (d0, a0) in zip(dmf, metrarmlen[mm])])
+                           for (d0, a0) in zip(dmf, metrarmlen[mm])], dtype=bool)
     mm = mm[okdistance]
     mf = mf[okdistance]
     dmf = dmf[okdistance]
-- 
2.43.0


From bcc16325fec47bda276c005023f59c04ce441e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 13/37] fix: detectspots misses a spot centred between two
 pixels

Two pixels with the same convolved value (a spot centred half way between
pixels) were both rejected as local maxima. Compare strictly with the
neighbours on one side only, so that exactly one of them is kept.
---
 py/desimeter/detectspots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b121d18..acc7cf6 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -171,9 +171,9 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
 
     peaks=np.zeros((n0,n1))
     peaks[1:-1,1:-1] = ((convolved_image[1:-1, 1:-1] > convolved_image[:-2, 1:-1]) *
-                        (convolved_image[1:-1, 1:-1] > convolved_image[2:,  1:-1]) *
+                        (convolved_image[1:-1, 1:-1] >= convolved_image[2:,  1:-1]) *
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,:-2]) *
-                        (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,2:]) *
+                        (convolved_image[1:-1,1:-1]  >= convolved_image[1:-1,2:]) *
                         (convolved_image[1:-1,1:-1]>threshold))
     # loop on peaks
     peakindices=np.where(peaks.ravel()>0)[0]
-- 
2.43.0


From b17b1b4156c1aa7c120dcdf493c47146bb1d51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 14/37] fix: detectspots fails or biases positions within 3
 pixels of the image edge

The stamp of a peak close to the edge started at a negative index (empty or
wrong stamp: singular matrix), or was truncated at the far edge with its
centre taken as the peak (position off by up to a pixel). Truncate the stamp
on both sides and give the peak position to the centroid fit.
---
 py/desimeter/detectspots.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index acc7cf6..906980d 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -62,16 +62,20 @@ def dpsfdyc(i0,i1,xc,yc,sigma):
     a=1/(np.sqrt(2)*sigma)
     return -a*0.25*2/np.sqrt(np.pi)*(erf(a*(i1+0.5-xc))-erf(a*(i1-0.5-xc)))*(np.exp(-(a*(i0+0.5-yc))**2)-np.exp(-(a*(i0-0.5-yc))**2))
 
-def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
+def fitcentroid_gaussian(stamp,sigma=1.,noise=10.,peak=None):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
+    optional peak = indices (i0,i1) of the peak pixel in the stamp, if not the central one
+    (stamp truncated by the edge of the image); it then has coordinates = (0,0)
     """
     # iterative gauss-newton fit
     n0=stamp.shape[0]
     n1=stamp.shape[1]
-    xc=float(n1//2)
-    yc=float(n0//2)
+    if peak is None :
+        peak=(n0//2,n1//2)
+    xc=float(peak[1])
+    yc=float(peak[0])
     flux=np.sum(stamp)
     #print(flux,xc,yc)
     mod    = np.zeros(stamp.shape)
@@ -100,9 +104,9 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
         #print(loop,delta,[flux,xc,yc])
         if np.abs(delta[1])<0.001 and np.abs(delta[2])<0.001: break
 
-    # coordinates should be zero at center of stamp
-    xc -= float(n1//2)
-    yc -= float(n0//2)
+    # coordinates should be zero at center of stamp (or peak)
+    xc -= float(peak[1])
+    yc -= float(peak[0])
 
     xe = noise * np.sqrt(Ai[1,1])
     ye = noise * np.sqrt(Ai[2,2])
@@ -111,13 +115,14 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
     #sys.exit(12)
 
 
-def fitcentroid(stamp,noise=10.):
+def fitcentroid(stamp,noise=10.,peak=None):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
+    (or on the pixel peak=(i0,i1) of the stamp, if given)
     """
 
-    return fitcentroid_gaussian(stamp,sigma=1,noise=noise)
+    return fitcentroid_gaussian(stamp,sigma=1,noise=noise,peak=peak)
     #return fitcentroid_barycenter(stamp)
 
 
@@ -215,7 +220,10 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         i0=index//n1
         i1=index%n1
         if 1: #try :
-            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms)
+            # the stamp is truncated at the edges of the image
+            b0=max(0,i0-hw)
+            b1=max(0,i1-hw)
+            x,y,ex,ey,c=fitcentroid(fvcimage[b0:i0+hw+1,b1:i1+hw+1],noise=fvcimage_rms,peak=(i0-b0,i1-b1))
             xpix[j] = x + i1 + xoffset #  x is along axis=1 in python , also adding offset (definition of pixel coordinates)
             ypix[j] = y + i0 + yoffset #  y is along axis=0 in python , also adding offset (definition of pixel coordinates)
             xerr[j] = ex
-- 
2.43.0


From 0adb123a5e89c3e90dd81776d5307a86809b93b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 15/37] fix: detectspots finds nothing when the background is
 constant

With a noiseless background the median absolute deviation is zero, no pixel
passed the strict cut around the median, and the pedestal was the mean of an
empty selection (NaN), so that no pixel was above threshold.
---
 py/desimeter/detectspots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index 906980d..3ae01cc 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -157,7 +157,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     #- normalized median absolute deviation as robust version of RMS
     #- see https://en.wikipedia.org/wiki/Median_absolute_deviation
     convolved_image_rms=1.4826*np.median(np.abs(vals-mval))
-    ok=np.abs(vals-mval)<4*convolved_image_rms
+    ok=np.abs(vals-mval)<=4*convolved_image_rms
     mval=np.mean(vals[ok])
     convolved_image_rms=np.std(vals[ok])
     log.info("convolved image pedestal={:4.2f} rms={:4.2f}".format(mval,convolved_image_rms))
@@ -209,7 +209,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     vals=fvcimage[ii0,ii1].ravel()
     mval=np.median(vals)
     fvcimage_rms=1.4826*np.median(np.abs(vals-mval))
-    ok=np.abs(vals-mval)<4*fvcimage_rms
+    ok=np.abs(vals-mval)<=4*fvcimage_rms
     mval=np.mean(vals[ok])
     fvcimage_rms=np.std(vals[ok])
     log.info("fvc image pedestal={:4.2f} rms={:4.2f}".format(mval,fvcimage_rms))
-- 
2.43.0


From 01f3b5a6ca42815681df8b88a4195b702edeef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 16/37] fix: correct_using_stationary with undefined
 measurements

The clipping mask had the length of the input instead of that of the data
left after removing the non-finite measurements: shape mismatch.
---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a1554b9..b1e3da4 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -398,14 +398,14 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             np.isfinite(data['dx']) & np.isfinite(data['dy']))
     data = data[mask]
     if clip_resid > 0:
-        tmask = mask.copy()
+        tmask = np.ones(len(data), dtype=bool)
         for c in (data['dx'], data['dy']):
             med = np.median(c)
             sd = mad_std(c)
             tmask &= (c > med - 5*sd) & (c < med + 5*sd)
         if np.any(tmask):
             data = data[tmask]
-            mask = mask & tmask
+            mask[mask] = tmask
         # here using only stationary positioners
         xturb, yturb, _ = solve_independent(
             data, nuse=500, excludeself=False,
-- 
2.43.0


From 0fbba688036bba61d9c9e6b0f24d504810b4e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 17/37] fix: correct_using_stationary ignored clip_resid

The documented limit on the residuals was compared to a constant 10 microns.
---
 py/desimeter/turbulence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index b1e3da4..e72ada5 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -412,13 +412,13 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             method='powell', fix_covar=True,
             scale_covar=scale_covar)
         offset = np.hypot(data['dx'] - xturb, data['dy'] - yturb)
-        tmask = offset < 0.01  # 10 microns
+        tmask = offset < clip_resid
         data = data[tmask]
         mask[mask] &= tmask
         if np.sum(~mask) > 0:
             log.info('Excluding %d stationary positioners with turbulence '
-                     'corrected offsets larger than 10 microns or 4 sigma '
-                     'away from rest.' % np.sum(~mask))
+                     'corrected offsets larger than %g mm or 4 sigma '
+                     'away from rest.' % (np.sum(~mask), clip_resid))
 
     xturb, yturb, _ = solve_independent(
         data, nuse=500, excludeself=False,
-- 
2.43.0


From 024af64e2490bb173989c2c8f2777404ed76fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 18/37] fix: fit_params altered the nominals and bounds given
 to it

and the defaults of the module when they were not given, so that a fit
depended on those made before.
---
 py/desimeter/posparams/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b1bead3..0423989 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -122,6 +122,9 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         bounds = default_bounds
     if keep_fixed is None:
         keep_fixed = []
+    # copies, because parameters are added and initial values are changed below
+    nominals = dict(nominals)
+    bounds = dict(bounds)
     # arg checking
     assert len(posintT) == len(posintP) == len(ptlX) == len(ptlY) == len(gearT) == len(gearP) == len(recent_rehome) == len(sequence_id)
     assert all(isinstance(arg, list) for arg in (posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequence_id))
-- 
2.43.0


From a4257e46a84c96534f58e4f05ec31e85cdba17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 19/37] fix: fit_params KeyError when too many outliers are
 rejected

The bit is named FAILED_FIT.
---
 py/desimeter/posparams/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 0423989..4786512 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -386,7 +386,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         if npts<npar :
             message="ERROR: not enough remaining points ({} points) to fit calibration ({} params)".format(npts,npar)
             print(message)
-            flags |= movemask['FIT_FAILED']
+            flags |= movemask['FAILED_FIT']
             best_params = {"FLAGS": flags}
             covariance_dict = dict()
             rms_of_residuals = 0.
-- 
2.43.0


From 1ed251d65d4f1755a0cfab327bf6b52ea71e0ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 20/37] fix: fit_params KeyError in dynamic mode when one of
 the scales is kept fixed

---
 py/desimeter/posparams/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 4786512..3b917ff 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -290,8 +290,8 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             t_int_expected = t_int
             p_int_expected = p_int
         else:
-            dt_int_scaled = dt_int * params[param_idx['SCALE_T']]
-            dp_int_scaled = dp_int * params[param_idx['SCALE_P']]
+            dt_int_scaled = dt_int * p0['SCALE_T']
+            dp_int_scaled = dp_int * p0['SCALE_P']
             t_int_expected = measured_t_int_0 + dt_int_scaled
             p_int_expected = measured_p_int_0 + dp_int_scaled
 
-- 
2.43.0


From 68f06c4ce2b4677f18f449607a8eb6afd127a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 21/37] fix: fit_params does not always converge for theta
 offsets beyond 150 degrees

Initialize OFFSET_T from the data, as OFFSET_X and OFFSET_Y.
---
 py/desimeter/posparams/fitter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 3b917ff..9692e95 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -342,6 +342,17 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             if not "OFFSET_Y" in keep_fixed : nominals["OFFSET_Y"] = offset_y
             print("init OFFSET_X={} OFFSET_Y={}".format(offset_x,offset_y))
 
+            # and OFFSET_T with the rotation from expected to measured positions,
+            # because the fit may not converge when starting more than 150 deg away
+            if not "OFFSET_T" in keep_fixed :
+                ii = np.where(recent_rehome)[0]
+                x_loc, y_loc = pos2ptl.int2loc(t_int=t_int[ii], p_int=p_int[ii],
+                                               r1=nominals['LENGTH_R1'], r2=nominals['LENGTH_R2'],
+                                               t_offset=0., p_offset=nominals['OFFSET_P'])
+                dx = x_flat[ii] - nominals["OFFSET_X"]
+                dy = y_flat[ii] - nominals["OFFSET_Y"]
+                nominals["OFFSET_T"] = np.degrees(np.arctan2(np.sum(x_loc*dy-y_loc*dx), np.sum(x_loc*dx+y_loc*dy)))
+
     initial_params = [nominals[key] for key in params_to_fit]
     bounds_vector = [bounds[key] for key in params_to_fit]
     # with fun = chi2 , then covariance = inverse of hessian * 2
-- 
2.43.0


From 43ad5efaa2c549491ab220b938b8f3893a0304f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 22/37] fix: fiberassign field rotation off by up to 5 arcsec
 at 3 degrees

The rotation was measured as the mean of the sines.
---
 py/desimeter/fiberassign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/fiberassign.py b/py/desimeter/fiberassign.py
index 1fa0db5..a408c2a 100644
--- a/py/desimeter/fiberassign.py
+++ b/py/desimeter/fiberassign.py
@@ -32,7 +32,8 @@ def _measure_fieldrot_deg(ha,dec,tel_ha,tel_dec,xfp_mm,yfp_mm) :
 
     ok = (~(np.isnan(ha*dec*xfp_mm*yfp_mm)))&(xfp_mm**2+yfp_mm**2>10**2)
     x2,y2=hadec2xy(ha[ok],dec[ok],tel_ha,tel_dec) # rad
-    return np.rad2deg(np.mean((yfp_mm[ok]*x2-xfp_mm[ok]*y2)/np.sqrt((xfp_mm[ok]**2+yfp_mm[ok]**2)*(x2**2+y2**2))))
+    norm=np.sqrt((xfp_mm[ok]**2+yfp_mm[ok]**2)*(x2**2+y2**2))
+    return np.rad2deg(np.arctan2(np.mean((yfp_mm[ok]*x2-xfp_mm[ok]*y2)/norm),np.mean((xfp_mm[ok]*x2+yfp_mm[ok]*y2)/norm)))
 
 
 # This comes straight from PlateMaker: python/PlateMaker/astron.py
-- 
2.43.0


From 8c9ed89556723184a79ca4ca21c4fe939be817d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 23/37] fix: fiberassign pm_zd NaN at zenith because of
 rounding

---
 py/desimeter/fiberassign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fiberassign.py b/py/desimeter/fiberassign.py
index a408c2a..76beb7e 100644
--- a/py/desimeter/fiberassign.py
+++ b/py/desimeter/fiberassign.py
@@ -48,8 +48,8 @@ def pm_zd(ha, dec, lat):
     rha = np.deg2rad(ha)
     rdec = np.deg2rad(dec)
     rphi = np.deg2rad(lat)
-    rzen = np.arccos(np.cos(rha) * np.cos(rdec) * np.cos(rphi) +
-            np.sin(rdec) * np.sin(rphi))
+    coszen = np.cos(rha) * np.cos(rdec) * np.cos(rphi) + np.sin(rdec) * np.sin(rphi)
+    rzen = np.arccos(np.clip(coszen, -1., 1.)) # rounding can exceed 1 at zenith
     return np.rad2deg(rzen)
 
 def pm_psi(ha, dec, latitude):
-- 
2.43.0


From f32cab824243eb8c728fbf484e8a322a29d58341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 24/37] fix: fiberassign_cs5_xy2radec is not the inverse of
 fiberassign_radec2xy_cs5

The field rotation is the last transform of fiberassign_radec2xy_cs5, so it has
to be undone first, and it is measured on the coordinates before that rotation.
---
 py/desimeter/fiberassign.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/py/desimeter/fiberassign.py b/py/desimeter/fiberassign.py
index 76beb7e..6b7d109 100644
--- a/py/desimeter/fiberassign.py
+++ b/py/desimeter/fiberassign.py
@@ -235,25 +235,33 @@ def fiberassign_cs5_xy2radec(xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fiel
         tel_dec += ddec
 
     if from_platemaker :
-        # apply tranformation from desimeter to platemater
         dm2pm = DM2PM.read(dm2pm_filename())
-        xfp,yfp = dm2pm.pm2dm(xfp,yfp)
 
-    xtan,ytan = fp2tan(xfp,yfp,adc1,adc2)
-    tmp_ra,tmp_dec    = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
+    # the field rotation was the last transform applied in fiberassign_radec2xy_cs5, so it is the first one to undo;
+    # its amplitude depends on the field rotation measured with the coordinates before this rotation,
+    # so we have to iterate (it converges very fast)
+    drot = 0.
+    for _ in range(3) :
 
-    # need to deal with field rotation
-    # measure field rotation
-    tmp_fieldrot = _measure_fieldrot_deg(-tmp_ra,tmp_dec,-tile_ra,tile_dec,xfp,yfp)
+        # undo field rotation
+        s,c  = sincosd(drot)
+        rot_xfp = c * xfp + s * yfp
+        rot_yfp = -s * xfp + c * yfp
 
-    # apply field rotation to match request
-    drot = tile_fieldrot-tmp_fieldrot
-    s,c  = sincosd(drot)
-    tmp_xfp = c * xfp + s * yfp
-    tmp_yfp = -s * xfp + c * yfp
+        if from_platemaker :
+            # apply tranformation from platemater to desimeter
+            tmp_xfp,tmp_yfp = dm2pm.pm2dm(rot_xfp,rot_yfp)
+        else :
+            tmp_xfp,tmp_yfp = rot_xfp,rot_yfp
+
+        xtan,ytan = fp2tan(tmp_xfp,tmp_yfp,adc1,adc2)
+        ra,dec    = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
+
+        # measure field rotation
+        tmp_fieldrot = _measure_fieldrot_deg(-ra,dec,-tile_ra,tile_dec,rot_xfp,rot_yfp)
 
-    xtan,ytan      = fp2tan(tmp_xfp,tmp_yfp,adc1,adc2)
-    ra,dec = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
+        # field rotation that was applied to match request
+        drot = tile_fieldrot-tmp_fieldrot
 
     # verify
     realised_fieldrot = _measure_fieldrot_deg(-ra,dec,-tile_ra,tile_dec,xfp,yfp)
-- 
2.43.0


From 416242ff753ee6fe132c9b8a95ced9b8fb2b26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 25/37] fix: findfiducials keeps the pixel coordinates of the
 first call's input transform

---
 py/desimeter/findfiducials.py | 43 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6ddd75b..10d9788 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -11,14 +11,12 @@ from desimeter.transform.fvc2fp import FVC2FP
 from desimeter.match import match_same_system,match_arbitrary_translation_dilatation
 from desimeter.simplecorr import SimpleCorr
 
-metrology_pinholes_table = None
-metrology_fiducials_table = None
+known_pinholes_table = None
 
 
 def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
 
-    global metrology_pinholes_table
-    global metrology_fiducials_table
+    global known_pinholes_table
     log = get_logger()
 
     log.debug("load input tranformation we will use to go from FP to FVC pixels")
@@ -35,26 +33,29 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     pinhole_max_separation_pixels = pinhole_max_separation_mm/pixel2fp
     log.info("with pixel2fp = {:4.3f} mm, pinhole max separation = {:4.3f} pixels ".format(pixel2fp,pinhole_max_separation_pixels))
 
-    if metrology_pinholes_table is None :
+    if known_pinholes_table is None :
         metrology_table = load_metrology()
 
         log.debug("keep only the pinholes")
-        metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
-
-        # use input transform to convert X_FP,Y_FP to XPIX,YPIX
-        xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
-        metrology_pinholes_table["XPIX"]=xpix
-        metrology_pinholes_table["YPIX"]=ypix
-
-        log.debug("define fiducial location as the most central dot")
-        central_pinholes=[]
-        for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
-            ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
-            mx=np.mean(metrology_pinholes_table["XPIX"][ii])
-            my=np.mean(metrology_pinholes_table["YPIX"][ii])
-            k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
-            central_pinholes.append(ii[k])
-        metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
+        known_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
+
+    # the pixel coordinates depend on the input transform: they are not kept from one call to the next
+    metrology_pinholes_table = known_pinholes_table.copy()
+
+    # use input transform to convert X_FP,Y_FP to XPIX,YPIX
+    xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
+    metrology_pinholes_table["XPIX"]=xpix
+    metrology_pinholes_table["YPIX"]=ypix
+
+    log.debug("define fiducial location as the most central dot")
+    central_pinholes=[]
+    for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
+        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
+        mx=np.mean(metrology_pinholes_table["XPIX"][ii])
+        my=np.mean(metrology_pinholes_table["YPIX"][ii])
+        k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
+        central_pinholes.append(ii[k])
+    metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
 
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
-- 
2.43.0


From 073a8495e5946e71ab9122e1057109be0cef87bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 26/37] fix: detect_phi_arm modifies the template of the caller

---
 py/desimeter/brightimage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/brightimage.py b/py/desimeter/brightimage.py
index 618de0c..6e9ef5a 100644
--- a/py/desimeter/brightimage.py
+++ b/py/desimeter/brightimage.py
@@ -34,8 +34,8 @@ def detect_phi_arm(x,y,image,template,ang_step=1.,plot=False) :
     xgrid, ygrid = np.mgrid[-pad:pad+1,-pad:pad+1]
     mask = ((xgrid**2 + ygrid**2) < pad**2)
 
-    template *= mask
-    template /=np.sqrt(np.sum(template**2))
+    template = template * mask
+    template = template / np.sqrt(np.sum(template**2))
 
     best_angle = []
     best_ccf = []
-- 
2.43.0


From da29af9bbf29577b4030581955bc87acadb170b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 27/37] fix: average_coordinates overwrites the first input
 table

---
 py/desimeter/averagecoord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/averagecoord.py b/py/desimeter/averagecoord.py
index 225791f..93e1dd3 100644
--- a/py/desimeter/averagecoord.py
+++ b/py/desimeter/averagecoord.py
@@ -22,7 +22,7 @@ def average_coordinates(tables,xkey,ykey) :
         x2=np.array(table[xkey])
         y2=np.array(table[ykey])
         if x1 is None :
-            table1=table
+            table1=table.copy()
             x1=x2
             y1=y2
             indices=np.arange(len(x1),dtype=int)
-- 
2.43.0


From cd9501123796a97a3c78e4fc077981ef68e90aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 28/37] fix: parameters of one fit run change the column names
 of the next

---
 py/desimeter/posparams/fithandler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 5cb6e72..4eb8d0a 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -357,7 +357,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
     '''
     table.sort('DATE_SEC') # to ensure consistent ordering as in _define_cases
     posid = _get_posid(table)
-    output = {col:[] for col in output_keys}
+    variable_keys = dict(output_keys)
+    output = {col:[] for col in variable_keys}
     # add covariances
     fitted_keys=list(fitter.static_keys)+list(fitter.dynamic_keys)
     for i1,col1 in enumerate(list(fitted_keys)) :
@@ -405,7 +406,7 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 fitted_keys.append(key)
                 if key not in output.keys() :
                     output[key] = list()
-                    output_keys[key]=True
+                    variable_keys[key]=True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
@@ -466,8 +467,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in output_keys :
-            if output_keys[key] :
+        for key in variable_keys :
+            if variable_keys[key] :
                 for key2 in table.dtype.names :
                     if key2.find(key)>=0 :
                         key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-- 
2.43.0


From 540ae8dc19dcbe2ab25b354777c66fcf0d66d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 29/37] fix: detectspots depends on and advances the global
 random generator

---
 py/desimeter/detectspots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index 3ae01cc..b9e994f 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -150,8 +150,9 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     # measure pedestal and rms
     # look the values of a random subsample of the image
     nrand=20000
-    ii0=(np.random.uniform(size=nrand)*n0).astype(int)
-    ii1=(np.random.uniform(size=nrand)*n1).astype(int)
+    rng=np.random.RandomState(0)
+    ii0=(rng.uniform(size=nrand)*n0).astype(int)
+    ii1=(rng.uniform(size=nrand)*n1).astype(int)
     vals=convolved_image[ii0,ii1].ravel()
     mval=np.median(vals)
     #- normalized median absolute deviation as robust version of RMS
-- 
2.43.0


From 1fb6eef33f45fa544ab248b3eb85e5c5081aeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 30/37] fix: match_same_system matches to entry 0 of an empty
 second catalog

---
 py/desimeter/match.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/desimeter/match.py b/py/desimeter/match.py
index 366b159..f9cca38 100644
--- a/py/desimeter/match.py
+++ b/py/desimeter/match.py
@@ -120,6 +120,7 @@ def match_same_system(x1,y1,x2,y2,remove_duplicates=True) :
     xy2=np.array([x2,y2]).T
     tree2 = KDTree(xy2)
     distances,indices_2 = tree2.query(xy1,k=1)
+    indices_2[distances==np.inf] = -1 # no neighbor (empty second catalog)
 
     if remove_duplicates :
         unique_indices_2 = np.unique(indices_2)
-- 
2.43.0


From dde8a15160f861694d48156b02de6346b93be929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 31/37] fix: detectspots keeps the duplicated detections beyond
 the first hundred

---
 py/desimeter/detectspots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b9e994f..03b3812 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -243,8 +243,8 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         yerr=yerr[good]
         counts=counts[good]
 
-    for _ in range(100) :
-        # iterate, removing duplicates
+    while True :
+        # iterate, removing duplicates one by one until there are none
         xy=np.array([xpix,ypix]).T
         tree = KDTree(xy)
         distances,indices = tree.query(xy,k=2) # go up to 4 bad detections
-- 
2.43.0


From 6f5af01fbac7d704435c399ae66b1f065041cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 32/37] fix: getBothRoots solves A r^2 + C = 0 with the right
 sign

When the linear term vanishes (a ray across the axis of the surface) the roots
are +-sqrt(-C/A); the ray was reported as missing the surface it hits.
---
 py/desimeter/transform/tan2fp/raytrace/RT185v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/transform/tan2fp/raytrace/RT185v2.py b/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
index 61bb5bd..f7f486f 100755
--- a/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
+++ b/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
@@ -476,8 +476,8 @@ def getBothRoots(A, B, C):
     if A==0.0 and B!= 0.0:
         return -C/B, -0.0
     if B==0.0 and A!=0.0:
-        if C/A>0:
-            return np.sqrt(C/A), -np.sqrt(C/A)
+        if C/A<0:
+            return np.sqrt(-C/A), -np.sqrt(-C/A)
         else:
             return -0.0, -0.0
     if C==0 and A!= 0.0:
-- 
2.43.0


From 6b61cef47ae50f45beb1c448756408099beb732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:33 +0000
Subject: [PATCH 33/37] fix: calibration runs with more than ten sequences
 failed (columns renamed by substring)

---
 py/desimeter/posparams/fithandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 4eb8d0a..cbbfed6 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -470,8 +470,9 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
         for key in variable_keys :
             if variable_keys[key] :
                 for key2 in table.dtype.names :
-                    if key2.find(key)>=0 :
-                        key2_xxx=key2.replace(key,key + _mode_suffix(mode))
+                    keys2=key2.split('.') # columns like X, ERR.X, COV.X.Y
+                    if key in keys2 :
+                        key2_xxx='.'.join([k + _mode_suffix(mode) if k==key else k for k in keys2])
                         table.rename_column(key2,key2_xxx)
 
     return table
-- 
2.43.0


From 666f5b184bd2da3f608d86fbc5e92a6ee186068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:12 +0000
Subject: [PATCH 34/37] fix: calibration runs with different drifting sequences
 in different windows failed

---
 py/desimeter/posparams/fithandler.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index cbbfed6..90b7ec6 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -139,7 +139,7 @@ def run_best_fits(posid, path, period_days, data_window, savedir,
     printf('{}: rms of residuals (static) = {}'.format(posid,list(errors)))
     quantile = np.percentile(errors, static_quantile * 100)
     selection = static_out[errors <= quantile]
-    these_best = {key:np.median(selection[key + _mode_suffix('static')]) for key in best_static}
+    these_best = {key:_best_value(selection, static_out, key + _mode_suffix('static')) for key in best_static}
     best_static.update(these_best)
     printf(f'{posid}: Selected best static params = {_dict_str(best_static)}')
 
@@ -405,12 +405,14 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 #print("warning adding key={} which was not in fitted_keys={}".format(key,fitted_keys))
                 fitted_keys.append(key)
                 if key not in output.keys() :
-                    output[key] = list()
+                    output[key] = [np.nan]*(len(output['FLAGS'])-1) # not fitted in the previous cases
                     variable_keys[key]=True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
                 output[key1].append(params[key1])
+            elif key1.find("EPSILON")>=0 :
+                output[key1].append(np.nan) # sequence not in this case
             else :
                 output[key1].append(0.) # happens if fit fails
 
@@ -477,6 +479,14 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
 
     return table
 
+def _best_value(selection, table, key):
+    '''Returns the median of a parameter in the selected rows where it was fitted
+    (in the whole table if in none of them, for sequences absent from their data).'''
+    values = selection[key]
+    if np.all(np.isnan(values)) :
+        values = table[key]
+    return np.nanmedian(values)
+
 def _row_idx_for_time(presorted_table, t):
     '''Returns index of first row in table which matches the argued time t.
     Value t should be in same scale as 'DATE_SEC' column. I.e. the date in
-- 
2.43.0


From f072492c0a41733df0856056912361712cdb95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 35/37] fix: expected and metrology positions of spots matched
 with spotmatch

Fibers had their expected position replaced by the positioner centre, and
the centre of fiducials got the metrology of one of their pinholes, given
to any spot of that location (or to an unmatched spot).
---
 py/desimeter/processfvc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 595250b..4bb284c 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -290,7 +290,9 @@ def fvc_proc(args, log):
             spots["X_FP"],spots["Y_FP"] = tx.fvc2fp(spots["XPIX"],spots["YPIX"])
 
             is_matched = (spots["LOCATION"]>=0)
-            loc2i = {loc:i for i,loc in enumerate(spots["LOCATION"])}
+            # fibers and centers of fiducials, not the pinholes nor the unmatched spots
+            is_device = is_matched & ((spots["PINHOLE_ID"]==0)|(spots["PINHOLE_ID"]==99))
+            loc2i = {spots["LOCATION"][i]:i for i in np.where(is_device)[0]}
 
             ii=[]
             jj=[]
@@ -301,7 +303,7 @@ def fvc_proc(args, log):
             spots["X_FP_EXP"][ii]=expected_pos["X_FP"][jj]
             spots["Y_FP_EXP"][ii]=expected_pos["Y_FP"][jj]
 
-            metrology = load_metrology()
+            # this metrology has only one entry, the center, per fiducial
             ii=[]
             jj=[]
             for j,loc in enumerate(metrology["LOCATION"]) :
@@ -358,10 +360,11 @@ def fvc_proc(args, log):
             spots["Y_FP"][selection] = new_y
 
         if "X_FP_METRO" in spots.dtype.names :
-            # for spots with metrology X_FP_EXP=X_FP_METRO
-            selection = (spots["X_FP_METRO"]!=0)
+            # for fiducials with metrology X_FP_EXP=X_FP_METRO
+            is_fiducial = (spots["PINHOLE_ID"]>0)
+            selection = (spots["X_FP_METRO"]!=0)&is_fiducial
             spots["X_FP_EXP"][selection]=spots["X_FP_METRO"][selection]
-            selection = (spots["Y_FP_METRO"]!=0)
+            selection = (spots["Y_FP_METRO"]!=0)&is_fiducial
             spots["Y_FP_EXP"][selection]=spots["Y_FP_METRO"][selection]
 
         # write transfo
-- 
2.43.0


From e8aea7f1d78bbb61aca1efe8d3f7344df7e201b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 36/37] fix: guide stars without proper motion in fits catalogs
 were dropped

---
 py/desimeter/fieldmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index f0ae1f0..135fbbf 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -119,8 +119,9 @@ class FieldModel(object):
                 raise RuntimeError("Cannot compute proper motion correction because mjd=None")
 
             # if proper motions and reference epochs are there
-            pmra = catalog['pmra']
-            pmdec = catalog['pmdec']
+            # (undefined values are masked when the catalog is a fits file)
+            pmra = np.ma.filled(catalog['pmra'],0.)
+            pmdec = np.ma.filled(catalog['pmdec'],0.)
             # if unknown, zero out the pms
             pmra[~np.isfinite(pmra)] = 0
             pmdec[~np.isfinite(pmdec)] = 0
-- 
2.43.0


From 4726a7e94ed30fae34ec60f06a27ca4441a9a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 37/37] fix: guide stars measured across RA=0 from their
 catalog position were dropped

---
 py/desimeter/fieldmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 135fbbf..35264dc 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -145,7 +145,9 @@ class FieldModel(object):
             dec_column = 'dec_gaia'
             log.warning("No proper motion info in catalog")
 
-        match_dra  = (catalog["ra"]-catalog[ra_column])*cosd(catalog[dec_column]) * 3600. # arcsec
+        # RA difference between -180 and 180 deg, stars can be on both sides of RA=0
+        match_dra  = (catalog["ra"]-catalog[ra_column]+180.)%360.-180.
+        match_dra  = match_dra*cosd(catalog[dec_column]) * 3600. # arcsec
         match_ddec = (catalog["dec"]-catalog[dec_column]) * 3600. # arcsec
 
         dr = np.hypot(match_dra, match_ddec)
-- 
2.43.0

