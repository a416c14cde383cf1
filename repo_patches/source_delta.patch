From 874af07635d8615cd8ac65ad6a610350f387a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 01/63] fix: delta_angle accepts any mix of scalars and
 vectors, as documented

---
 py/desimeter/transform/pos2ptl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index f25dfad..92faf39 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -290,8 +290,8 @@ def delta_angle(u_start, u_final, direction=0):
     '''
     u_start = _to_numpy(u_start)
     u_final = _to_numpy(u_final)
-    direction = np.ones(np.shape(u_start)) * _to_numpy(direction)
-    direction = np.sign(direction) # ensure vals are only +1, 0, or -1
+    u_start, u_final, direction = np.broadcast_arrays(u_start, u_final, _to_numpy(direction))
+    direction = np.sign(direction).astype(float) # ensure vals are only +1, 0, or -1
     natural_delta = u_final - u_start
     zero_dir = direction == 0
     direction[zero_dir] = np.sign(natural_delta)[zero_dir]
-- 
2.43.0


From b7b620f5d9fe457c465b7c7f1e4751125959efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 02/63] fix: z2r and z2s return values instead of NaN (Z table
 is decreasing)

---
 py/desimeter/transform/rszn_lookups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/rszn_lookups.py b/py/desimeter/transform/rszn_lookups.py
index 9edd713..e23dcf9 100644
--- a/py/desimeter/transform/rszn_lookups.py
+++ b/py/desimeter/transform/rszn_lookups.py
@@ -47,7 +47,7 @@ def r2z(r):
 
 def z2r(z):
     '''Convert z (mm) to r (mm) on a nominal Echo22 focal surface.'''
-    return np.interp(z, Z, R, left=oob, right=oob)
+    return np.interp(z, Z[::-1], R[::-1], left=oob, right=oob) # Z decreases with R, np.interp needs increasing
 
 def r2n(r):
     '''Convert r (mm) to n (deg) on a nominal Echo22 focal surface.'''
-- 
2.43.0


From 3401b31681f455766ee496ea2d99ff7b7d6616c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 03/63] fix: undo_refraction does not modify its input array in
 place

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index e1db337..4f8b73c 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -311,7 +311,7 @@ def undo_refraction(alt) :
     for _ in range(2) :
         da   = apply_refraction(alt) - alt
         dda  = da-daprev
-        alt -= dda
+        alt  = alt - dda # not in place: alt belongs to the caller
         daprev = da
     return alt
 
-- 
2.43.0


From bb5f81f970ee5a578995f9b5f022115073d00539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 04/63] fix: SimpleCorr and TanCorr can read back the json they
 write

---
 py/desimeter/fieldmodel.py | 2 +-
 py/desimeter/simplecorr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6fce584..443a752 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -338,7 +338,7 @@ class TanCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Tangent Plane Correction"
         assert params['version'] == '1'
         tx.dha = params['dha']
         tx.ddec = params['ddec']
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 64f9c01..73f1bf1 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -36,7 +36,7 @@ class SimpleCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Simple Correction"
         assert params['version'] == '1'
         tx.dx = params['dx']
         tx.dy = params['dy']
-- 
2.43.0


From 15b0e35dcf8475afee7e4162f271a20a34adf3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 05/63] fix: SimpleCorr and TanCorr fits are valid for every
 rotation, including 0, 90, 180 and 270 deg

---
 py/desimeter/fieldmodel.py |  7 ++++---
 py/desimeter/simplecorr.py | 16 ++++++----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 443a752..3dbd1e7 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -423,9 +423,10 @@ class TanCorr(object):
 
         self.rot_deg = arctan2d(sa,ca)
 
-        sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-        sxx =(ax[1]-sxy*sa)/ca
-        syy = (ay[1]-sxy*ca)/sa
+        # scale matrix = fitted matrix times inverse rotation (no division by ca or sa)
+        sxx = ca*ax[1] - sa*ax[2]
+        syy = sa*ay[1] + ca*ay[2]
+        sxy = sa*ax[1] + ca*ax[2]
 
         self.sxx = sxx
         self.syy = syy
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 73f1bf1..5fc17cf 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -135,16 +135,12 @@ class SimpleCorr(object):
         sa=(ay[1]-ax[2])/sxx_p_syy
         ca=(ax[1]+ay[2])/sxx_p_syy
 
-        if sa != 0 :
-            self.rot_deg = arctan2d(sa,ca)
-
-            sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-            sxx =(ax[1]-sxy*sa)/ca
-            syy = (ay[1]-sxy*ca)/sa
-        else :
-            sxx = ax[1]
-            syy = ay[2]
-            sxy = ax[2]
+        self.rot_deg = arctan2d(sa,ca)
+
+        # scale matrix = fitted matrix times inverse rotation (no division by ca or sa)
+        sxx = ca*ax[1] - sa*ax[2]
+        syy = sa*ay[1] + ca*ay[2]
+        sxy = sa*ax[1] + ca*ax[2]
         self.sxx = sxx
         self.syy = syy
         self.sxy = sxy
-- 
2.43.0


From d536d50e8ea408ffe5d3f63de6835e700f68098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 06/63] fix: SimpleCorr solid fit uses the offset of the
 unit-scale transformation and sets nmatch and rms

---
 py/desimeter/simplecorr.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 5fc17cf..688df76 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -77,12 +77,19 @@ class SimpleCorr(object):
         p = np.linalg.solve(ATA, ATv)
 
         self.rot_deg = arctan2d(p[1], p[0])
-        self.dx = p[2]
-        self.dy = p[3]
         self.sxx = 1.
         self.syy = 1.
         self.sxy = 0.
 
+        # best offset for this rotation without any scale
+        self.dx = 0.
+        self.dy = 0.
+        x2p, y2p = self.apply(x1, y1)
+        self.dx = np.mean(x2-x2p)
+        self.dy = np.mean(y2-y2p)
+        self.nmatch = n
+        self.rms = np.sqrt( np.mean( (x2-x2p-self.dx)**2 + (y2-y2p-self.dy)**2 ) )
+
     def fit(self, x1, y1, x2, y2, solid=False) :
         """
         Adjust tranformation from x1,y1 to x2,y2
-- 
2.43.0


From 7fd7f91cc5b7c44ffd319d41b56c0b3a272c6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 07/63] fix: TanCorr.apply_inverse undoes the pointing offset
 of apply

---
 py/desimeter/fieldmodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 3dbd1e7..3616146 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -444,10 +444,9 @@ class TanCorr(object):
         det = self.sxx*self.syy - self.sxy**2
         scale_matrix = np.array([[self.syy,-self.sxy],[-self.sxy,self.sxx]])/det
         rot_matrix = rot2deg(-self.rot_deg)
-        ha,dec  = xy2hadec(x,y,0,0)
-        x1t,y1t = hadec2xy(ha,dec,self.dha,self.ddec)
-        xy=rot_matrix.dot(scale_matrix.dot(np.array([x1t,y1t])))
-        return xy[0],xy[1]
+        xy=rot_matrix.dot(scale_matrix.dot(np.array([x,y])))
+        ha,dec  = xy2hadec(xy[0],xy[1],self.dha,self.ddec)
+        return hadec2xy(ha,dec,0,0)
 
 def fieldrot(ra,dec,mjd,lst_deg,hexrot_deg=0) :
     """
-- 
2.43.0


From d3081471b9ad94dcb92f77b719c813e12c85dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 08/63] fix: FieldModel json keeps the precession, aberration
 and polar misalignment switches

---
 py/desimeter/fieldmodel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 3616146..afdbc9c 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -51,6 +51,10 @@ class FieldModel(object):
         params['adc1'] = self.adc1
         params['adc2'] = self.adc2
 
+        params['precession'] = self.precession
+        params['aberration'] = self.aberration
+        params['polar_misalignment'] = self.polar_misalignment
+
         params['sxx'] = self.sxx
         params['syy'] = self.syy
         params['sxy'] = self.sxy
@@ -75,6 +79,11 @@ class FieldModel(object):
         tx.adc1 = params['adc1']
         tx.adc2 = params['adc2']
 
+        # not in older files
+        tx.precession = params.get('precession', True)
+        tx.aberration = params.get('aberration', True)
+        tx.polar_misalignment = params.get('polar_misalignment', True)
+
         tx.sxx = params['sxx']
         tx.syy = params['syy']
         tx.sxy = params['sxy']
-- 
2.43.0


From 4edd0e7279c91a824fca891952e2ae903afa8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 09/63] fix: guide stars with unknown proper motion (masked
 when read from fits) are kept

---
 py/desimeter/fieldmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index afdbc9c..a21eb38 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -119,9 +119,9 @@ class FieldModel(object):
                 raise RuntimeError("Cannot compute proper motion correction because mjd=None")
 
             # if proper motions and reference epochs are there
-            pmra = catalog['pmra']
-            pmdec = catalog['pmdec']
-            # if unknown, zero out the pms
+            # if unknown, zero out the pms (NaN values in fits files are read as masked)
+            pmra = np.ma.filled(catalog['pmra'],0.)
+            pmdec = np.ma.filled(catalog['pmdec'],0.)
             pmra[~np.isfinite(pmra)] = 0
             pmdec[~np.isfinite(pmdec)] = 0
 
-- 
2.43.0


From edd8341b430dd4f9bc2071f37b8d666e6112194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 10/63] fix: findfiducials uses the input transform of each
 call, not of the first one

---
 py/desimeter/findfiducials.py | 43 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6ddd75b..6966d61 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -11,14 +11,13 @@ from desimeter.transform.fvc2fp import FVC2FP
 from desimeter.match import match_same_system,match_arbitrary_translation_dilatation
 from desimeter.simplecorr import SimpleCorr
 
-metrology_pinholes_table = None
-metrology_fiducials_table = None
+#- cached pinholes metrology; without pixel coordinates because those depend on the input transform
+cached_metrology_pinholes_table = None
 
 
 def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
 
-    global metrology_pinholes_table
-    global metrology_fiducials_table
+    global cached_metrology_pinholes_table
     log = get_logger()
 
     log.debug("load input tranformation we will use to go from FP to FVC pixels")
@@ -35,26 +34,28 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     pinhole_max_separation_pixels = pinhole_max_separation_mm/pixel2fp
     log.info("with pixel2fp = {:4.3f} mm, pinhole max separation = {:4.3f} pixels ".format(pixel2fp,pinhole_max_separation_pixels))
 
-    if metrology_pinholes_table is None :
+    if cached_metrology_pinholes_table is None :
         metrology_table = load_metrology()
 
         log.debug("keep only the pinholes")
-        metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
-
-        # use input transform to convert X_FP,Y_FP to XPIX,YPIX
-        xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
-        metrology_pinholes_table["XPIX"]=xpix
-        metrology_pinholes_table["YPIX"]=ypix
-
-        log.debug("define fiducial location as the most central dot")
-        central_pinholes=[]
-        for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
-            ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
-            mx=np.mean(metrology_pinholes_table["XPIX"][ii])
-            my=np.mean(metrology_pinholes_table["YPIX"][ii])
-            k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
-            central_pinholes.append(ii[k])
-        metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
+        cached_metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
+
+    metrology_pinholes_table = cached_metrology_pinholes_table.copy()
+
+    # use input transform to convert X_FP,Y_FP to XPIX,YPIX
+    xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
+    metrology_pinholes_table["XPIX"]=xpix
+    metrology_pinholes_table["YPIX"]=ypix
+
+    log.debug("define fiducial location as the most central dot")
+    central_pinholes=[]
+    for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
+        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
+        mx=np.mean(metrology_pinholes_table["XPIX"][ii])
+        my=np.mean(metrology_pinholes_table["YPIX"][ii])
+        k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
+        central_pinholes.append(ii[k])
+    metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
 
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
-- 
2.43.0


From 21a9ad72208824f09acb5ffb9072d2a8f618bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 11/63] fix: findfiducials debug message

---
 py/desimeter/findfiducials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6966d61..6e3dfa6 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -66,7 +66,7 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     measured_spots_distances,measured_spots_indices = tree.query(xy,k=4,distance_upper_bound=pinhole_max_separation_pixels)
     number_of_neighbors = np.sum( measured_spots_distances<pinhole_max_separation_pixels,axis=1)
     fiducials_candidates_indices = np.where(number_of_neighbors>=4)[0]  # including self, so at least 3 pinholes
-    log.debug("number of fiducials=",fiducials_candidates_indices.size)
+    log.debug("number of fiducials={}".format(fiducials_candidates_indices.size))
 
     # match candidates to fiducials from metrology
     log.info("first match {} fiducials candidates to metrology ({}) with iterative fit".format(fiducials_candidates_indices.size,len(metrology_fiducials_table)))
-- 
2.43.0


From f1168ccbd3d858479d3dff18f78d8eddc7ea5ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 12/63] fix: load_nominal_positioner_locations used an
 undefined function

---
 py/desimeter/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py/desimeter/io.py b/py/desimeter/io.py
index a19013c..3c3916b 100644
--- a/py/desimeter/io.py
+++ b/py/desimeter/io.py
@@ -68,9 +68,8 @@ def fvc_bias_filename():
     return os.path.join(desimeter_data_dir(),'bias.fits')
 
 def load_nominal_positioner_locations():
-    directory = resource_filename('desimeter', 'data')
     filename = 'positioner_locations_0530v18.csv'
-    path = os.path.join(directory, filename)
+    path = resource_files('desimeter').joinpath('data', filename)
     table = Table.read(path)
 
     # so that we can use identical copy as in svn plate_control/petal, but with
-- 
2.43.0


From e711017b93e24ce5aafe0e38d34d7b4365d5d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 13/63] fix: no match, instead of an out of range one, when the
 second catalog is empty

---
 py/desimeter/match.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/desimeter/match.py b/py/desimeter/match.py
index 366b159..692849a 100644
--- a/py/desimeter/match.py
+++ b/py/desimeter/match.py
@@ -120,6 +120,7 @@ def match_same_system(x1,y1,x2,y2,remove_duplicates=True) :
     xy2=np.array([x2,y2]).T
     tree2 = KDTree(xy2)
     distances,indices_2 = tree2.query(xy1,k=1)
+    indices_2[~np.isfinite(distances)] = -1 # no neighbor, when the second catalog is empty
 
     if remove_duplicates :
         unique_indices_2 = np.unique(indices_2)
-- 
2.43.0


From c94c605ebfdbb669772a6d309dd23f2aa3d18f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 14/63] fix: positioner matching failed when no centroid is
 within reach of a positioner

---
 py/desimeter/match_positioners.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index ff68367..849d57d 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -129,8 +129,7 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
     mm, mf, dmf = match2d(metr['X_FP'].data, metr['Y_FP'].data,
                           fvc['X_FP'].data, fvc['Y_FP'].data,
                           np.max(metrarmlen)+0.1)
-    okdistance = np.array([d0 < a0
-                           for (d0, a0) in zip(dmf, metrarmlen[mm])])
+    okdistance = dmf < metrarmlen[mm]
     mm = mm[okdistance]
     mf = mf[okdistance]
     dmf = dmf[okdistance]
-- 
2.43.0


From 995083428272cd0051202b36598de920a6bbd946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 15/63] fix: spot detection failed when there is a peak within
 3 pixels of the image edge

---
 py/desimeter/detectspots.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b121d18..0f34c14 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -175,6 +175,13 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,:-2]) *
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,2:]) *
                         (convolved_image[1:-1,1:-1]>threshold))
+    # ignore peaks too close to the edges, the fit of the centroid needs a full stamp
+    hw=3
+    peaks[:hw]=0
+    peaks[-hw:]=0
+    peaks[:,:hw]=0
+    peaks[:,-hw:]=0
+
     # loop on peaks
     peakindices=np.where(peaks.ravel()>0)[0]
     npeak=len(peakindices)
@@ -191,7 +198,6 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     xerr=np.zeros(npeak)
     yerr=np.zeros(npeak)
     counts=np.zeros(npeak)
-    hw=3
 
     xoffset=0. # would need offsets of 1 to match with POS file. not sure what is the best choice here.
     yoffset=0.
-- 
2.43.0


From cadd1d2bff8932c0178616612507c633eabb04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 16/63] fix: circle fit of three points

---
 py/desimeter/circles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 6306858..1dd0157 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -81,7 +81,7 @@ def _fast_fit_circle(x,y,use_median=False) :
     nn=len(x)
     i1=np.arange(nn)
     ### i2=(i1+1)%nn
-    i2=(i1+nn//2-1)%nn
+    i2=(i1+max(1,nn//2-1))%nn
 
     # midpoints
     mx=((x[i1]+x[i2])/2.)
-- 
2.43.0


From da51f019423cb54b05c33a457f1dfb2b54bd05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 17/63] fix: robust circle fit could discard only one point

---
 py/desimeter/circles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 1dd0157..816a581 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -125,7 +125,8 @@ def robust_fit_circle(x, y, nsig=4., minerr=0.1):
         print(xc,yc,r)
         radii = np.hypot(x-xc, y-yc)
         res = np.abs(radii-r)
-        rms = 1.483*np.median(res)
+        res[~ok] = 0. # already discarded
+        rms = 1.483*np.median(res[ok])
         worst = np.argmax(res)
         if (res[worst] < nsig*rms) or (res[worst] < minerr) :
             break
-- 
2.43.0


From 98b5baef20739349c918a434db397a86506b80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 18/63] fix: polynomial turbulence correction used a module
 removed from scipy

---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a1554b9..8368309 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -57,12 +57,12 @@ def predictor(curx, cury, curdx, curdy, tofit, ndeg=2, polys=None):
     for i in range(ncv):
         cursub = tofit2 & (cvid != i)
         cursub1 = tofit2 & (cvid == i)
-        xcoeff = scipy.linalg.basic.lstsq(polys[:, cursub].T,
+        xcoeff = scipy.linalg.lstsq(polys[:, cursub].T,
                                           dxy[cursub],
                                           check_finite=False)[0]
         xpred = np.dot(polys.T, xcoeff)[cursub1]
         norm += np.sum((xpred - dxy[cursub1])**2)
-    xcoeff = scipy.linalg.basic.lstsq(polys[:, tofit2].T, dxy[tofit2])[0]
+    xcoeff = scipy.linalg.lstsq(polys[:, tofit2].T, dxy[tofit2])[0]
     xpred, ypred = np.dot(polys.T, xcoeff)[~tofit2]
     return xpred, ypred, norm, polys
 
-- 
2.43.0


From bccf06c48b87afeab8642ed60fc91274ca2cf38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 19/63] fix: turbulence correction with stationary fibers
 failed when one was not measured

---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 8368309..23e3b6d 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -398,14 +398,14 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             np.isfinite(data['dx']) & np.isfinite(data['dy']))
     data = data[mask]
     if clip_resid > 0:
-        tmask = mask.copy()
+        tmask = np.ones(len(data), dtype=bool)
         for c in (data['dx'], data['dy']):
             med = np.median(c)
             sd = mad_std(c)
             tmask &= (c > med - 5*sd) & (c < med + 5*sd)
         if np.any(tmask):
             data = data[tmask]
-            mask = mask & tmask
+            mask[mask] = tmask
         # here using only stationary positioners
         xturb, yturb, _ = solve_independent(
             data, nuse=500, excludeself=False,
-- 
2.43.0


From 9e1f15f74e4d142d66ee9887baedfd44fbf9162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 20/63] fix: turbulence correction with stationary fibers
 ignored clip_resid

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 23e3b6d..8253b12 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -412,7 +412,7 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             method='powell', fix_covar=True,
             scale_covar=scale_covar)
         offset = np.hypot(data['dx'] - xturb, data['dy'] - yturb)
-        tmask = offset < 0.01  # 10 microns
+        tmask = offset < clip_resid
         data = data[tmask]
         mask[mask] &= tmask
         if np.sum(~mask) > 0:
-- 
2.43.0


From 884c3849b2bff7f357682d56864990321de0b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 21/63] fix: dynamic fit of positioner parameters failed with
 integer angles

---
 py/desimeter/posparams/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b1bead3..7ec50c5 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -167,8 +167,8 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
 
 
     # some re-names and pre-initializations of numpy arrays
-    t_int = np.array(posintT)
-    p_int = np.array(posintP)
+    t_int = np.array(posintT,dtype=float)
+    p_int = np.array(posintP,dtype=float)
     x_ptl = np.array(ptlX)
     y_ptl = np.array(ptlY)
 
-- 
2.43.0


From 807234efb1a6b245044b1ada9438da128388fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 22/63] fix: columns of positioner fit results with 11 or more
 move sequences were misnamed

---
 py/desimeter/posparams/fithandler.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 5cb6e72..76d380c 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -466,12 +466,10 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in output_keys :
-            if output_keys[key] :
-                for key2 in table.dtype.names :
-                    if key2.find(key)>=0 :
-                        key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-                        table.rename_column(key2,key2_xxx)
+        # (covariance columns are named COV.KEY1.KEY2)
+        for name in table.dtype.names :
+            keys = [key + _mode_suffix(mode) if output_keys.get(key) else key for key in name.split(".")]
+            table.rename_column(name,".".join(keys))
 
     return table
 
-- 
2.43.0


From 6cbd729c895b000a97a617e296a471680759b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 23/63] fix: positioner fits with different move sequences in
 different data windows

---
 py/desimeter/posparams/fithandler.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 76d380c..92e8065 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -139,7 +139,12 @@ def run_best_fits(posid, path, period_days, data_window, savedir,
     printf('{}: rms of residuals (static) = {}'.format(posid,list(errors)))
     quantile = np.percentile(errors, static_quantile * 100)
     selection = static_out[errors <= quantile]
-    these_best = {key:np.median(selection[key + _mode_suffix('static')]) for key in best_static}
+    these_best = {}
+    for key in best_static :
+        values = np.array(selection[key + _mode_suffix('static')])
+        if np.all(np.isnan(values)) : # EPSILON of a sequence that is not in the selected cases
+            values = np.array(static_out[key + _mode_suffix('static')])
+        these_best[key] = np.nanmedian(values)
     best_static.update(these_best)
     printf(f'{posid}: Selected best static params = {_dict_str(best_static)}')
 
@@ -403,13 +408,15 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
             if key not in fitted_keys and key.find("EPSILON")>=0 :
                 #print("warning adding key={} which was not in fitted_keys={}".format(key,fitted_keys))
                 fitted_keys.append(key)
-                if key not in output.keys() :
-                    output[key] = list()
-                    output_keys[key]=True
+                output_keys[key]=True
+                # not measured in the previous cases
+                output[key] = [np.nan]*(len(output['POS_ID'])-1)
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
                 output[key1].append(params[key1])
+            elif key1.find("EPSILON")>=0 :
+                output[key1].append(np.nan) # no data of this sequence in this case
             else :
                 output[key1].append(0.) # happens if fit fails
 
-- 
2.43.0


From a42485cc03b1cfe71ce48e65870d71fb12d5ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 24/63] fix: fit_params modified its input and default nominals
 and bounds

---
 py/desimeter/posparams/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 7ec50c5..18f9599 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -122,6 +122,9 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         bounds = default_bounds
     if keep_fixed is None:
         keep_fixed = []
+    # some entries are set below: do not modify the input (nor default) values
+    nominals = dict(nominals)
+    bounds = dict(bounds)
     # arg checking
     assert len(posintT) == len(posintP) == len(ptlX) == len(ptlY) == len(gearT) == len(gearP) == len(recent_rehome) == len(sequence_id)
     assert all(isinstance(arg, list) for arg in (posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequence_id))
-- 
2.43.0


From 9d9a4f5cbc67f2b5ac35ca1df52ba9ba08330e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 25/63] fix: name of the flag set by fit_params when too many
 outliers

---
 py/desimeter/posparams/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 18f9599..b5b8286 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -386,7 +386,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         if npts<npar :
             message="ERROR: not enough remaining points ({} points) to fit calibration ({} params)".format(npts,npar)
             print(message)
-            flags |= movemask['FIT_FAILED']
+            flags |= movemask['FAILED_FIT']
             best_params = {"FLAGS": flags}
             covariance_dict = dict()
             rms_of_residuals = 0.
-- 
2.43.0


From e74e05db2cf2eed108a060f11ba33575154a62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 26/63] fix: rms of residuals of fit_params after outlier
 rejection

---
 py/desimeter/posparams/fitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b5b8286..3c24b4a 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -374,6 +374,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         p_int = np.delete(p_int,worst)
         sequence_id   = np.delete(sequence_id,worst)
         recent_rehome = np.delete(recent_rehome,worst)
+        n_pts = x_flat.size
 
         if mode == 'dynamic' :
             dt_int = np.delete(dt_int,worst)
-- 
2.43.0


From 995cf7301a2f84e12785833c0556d9bd392afb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 27/63] fix: positioner fits failed when all moves have the
 same date

---
 py/desimeter/posparams/fithandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 92e8065..fcb329b 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -81,6 +81,8 @@ def run_best_fits(posid, path, period_days, data_window, savedir,
     period_sec = period_days * 24 * 60 * 60
     datum_dates = np.arange(min(table['DATE_SEC']), max(table['DATE_SEC']), period_sec)
     datum_dates = datum_dates.tolist()
+    if len(datum_dates) == 0: # all moves have the same date
+        datum_dates = [min(table['DATE_SEC'])]
     cases = _define_cases(table, datum_dates, data_window, printf=printf)
 
 
-- 
2.43.0


From abe51d671f91923b3a5b28d7a6ecceb9bb775877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 28/63] fix: spotmatch used the same temporary files in all
 calls

---
 py/desimeter/spotmatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/spotmatch.py b/py/desimeter/spotmatch.py
index 2350598..3254db7 100644
--- a/py/desimeter/spotmatch.py
+++ b/py/desimeter/spotmatch.py
@@ -278,7 +278,9 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
     fid_x_dir=-1
     fid_y_dir=1
 
-    tmp_dir=tempfile.gettempdir()
+    # one directory per call, such that files from a previous call, or from another process, are never read
+    tmp=tempfile.TemporaryDirectory(prefix="desimeter_spotmatch_")
+    tmp_dir=tmp.name
 
     if fvc2fp is None :
         fvc2fp = FVC2FP.read(fvc2fp_filename())
@@ -377,6 +379,7 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
             err.append(float(vals[5]))
             device_type.append(vals[6])
     print("read {} entries in {}".format(len(xpix),match_centers_filename))
+    tmp.cleanup()
 
     res=Table()
     res["LOCATION"]=location
-- 
2.43.0


From 648afad15c8b6422fc4918f35b6c8e111e3de2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 29/63] fix: directory of the output transform was not made
 with --make-directory

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 595250b..807f48c 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -110,7 +110,7 @@ def preproc(args):
             if not os.path.exists(directory):
                 os.makedirs(directory)
         if args.output_transform is not None:
-            directory, _ = os.path.split(args.outfile)
+            directory, _ = os.path.split(args.output_transform)
             if directory != '':
                 if not os.path.exists(directory):
                     os.makedirs(directory)
-- 
2.43.0


From 537d4fcf862547da755b05446e3f9daaf6074617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 30/63] fix: unknown expected positions given as X_FP were not
 ignored

---
 py/desimeter/processfvc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 807f48c..fd388a3 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -180,12 +180,16 @@ def get_expected_pos(args, log):
                 x,y = qs2xy(q=expected_pos["EXP_Q_0"],s=expected_pos["EXP_S_0"])
                 expected_pos["X_FP"] = x
                 expected_pos["Y_FP"] = y
-                bad_expected_pos = (np.isnan(x)|np.isnan(y))
-                if np.sum(bad_expected_pos) > 0 :
-                    expected_pos["X_FP"][bad_expected_pos]=-99999.
-                    expected_pos["Y_FP"][bad_expected_pos]=-99999.
             else :
                 log.error("No EXP_Q_0 nor X_FP in expected positions file {}".format(args.expected_positions))
+
+        for k in ["X_FP","Y_FP"] : # unknown positions in CSV files are masked values
+            if hasattr(expected_pos[k],"filled") :
+                expected_pos[k] = expected_pos[k].filled(np.nan)
+        bad_expected_pos = (np.isnan(expected_pos["X_FP"])|np.isnan(expected_pos["Y_FP"]))
+        if np.sum(bad_expected_pos) > 0 :
+            expected_pos["X_FP"][bad_expected_pos]=-99999.
+            expected_pos["Y_FP"][bad_expected_pos]=-99999.
     else :
         log.info("since no input expected positions, use metrology to match the fibers to the positioner centers")
         expected_pos = load_metrology()
-- 
2.43.0


From 4004120763034b5d1dcf7d45a4c0b2c7d0b2023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 31/63] fix: expected positions of fibers and metrology of
 fiducial centers with --use-spotmatch

---
 py/desimeter/processfvc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index fd388a3..9314c6c 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -294,7 +294,8 @@ def fvc_proc(args, log):
             spots["X_FP"],spots["Y_FP"] = tx.fvc2fp(spots["XPIX"],spots["YPIX"])
 
             is_matched = (spots["LOCATION"]>=0)
-            loc2i = {loc:i for i,loc in enumerate(spots["LOCATION"])}
+            # fibers and centers of fiducials (not the pinholes, that have the location of their fiducial)
+            loc2i = {loc:i for i,loc in enumerate(spots["LOCATION"]) if loc>=0 and spots["PINHOLE_ID"][i] in [0,99]}
 
             ii=[]
             jj=[]
@@ -305,7 +306,7 @@ def fvc_proc(args, log):
             spots["X_FP_EXP"][ii]=expected_pos["X_FP"][jj]
             spots["Y_FP_EXP"][ii]=expected_pos["Y_FP"][jj]
 
-            metrology = load_metrology()
+            # metrology with the centers of fiducials, see above
             ii=[]
             jj=[]
             for j,loc in enumerate(metrology["LOCATION"]) :
@@ -362,10 +363,11 @@ def fvc_proc(args, log):
             spots["Y_FP"][selection] = new_y
 
         if "X_FP_METRO" in spots.dtype.names :
-            # for spots with metrology X_FP_EXP=X_FP_METRO
-            selection = (spots["X_FP_METRO"]!=0)
+            # for fiducials with metrology X_FP_EXP=X_FP_METRO
+            is_fiducial = (spots["PINHOLE_ID"]>0)
+            selection = is_fiducial & (spots["X_FP_METRO"]!=0)
             spots["X_FP_EXP"][selection]=spots["X_FP_METRO"][selection]
-            selection = (spots["Y_FP_METRO"]!=0)
+            selection = is_fiducial & (spots["Y_FP_METRO"]!=0)
             spots["Y_FP_EXP"][selection]=spots["Y_FP_METRO"][selection]
 
         # write transfo
-- 
2.43.0


From eebe40bba4cfc9c1b1199694d61796e0fd779d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 32/63] fix: get_posmoves --pos-ids movers selected no
 positioner

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index f9c8036..d6b4776 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -75,7 +75,7 @@ if args.enabled_history:
 else:
     desired_fields = {'moves': '*', 'calib': '*'}
 
-if args.pos_ids is not None :
+if args.pos_ids is not None and args.pos_ids != 'movers' :
     only_posids = args.pos_ids.split(",")
 else :
     only_posids = None
-- 
2.43.0


From d8d91cf425b5e81221949e0f96537386aa485279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 33/63] fix: get_posmoves --enabled-history without
 --tp-updates failed for lack of measurements

---
 bin/get_posmoves | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index d6b4776..a4f0330 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -211,8 +211,8 @@ for petalid in petalids :
                 selection[1:] |= otable[key][1:] != otable[key][:-1]  # detect changes
             otable = otable[selection]
 
-        # remove non measured entries
-        if not args.tp_updates:
+        # remove non measured entries (measurements are not retrieved for the enabled history)
+        if not args.tp_updates and not args.enabled_history:
             ok=(otable["X_FP"] != None)
             otable=otable[ok]
 
-- 
2.43.0


From 02d3a6d3f148e5e682e614399b6500ca722a92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 34/63] fix: get_poscoords gave all positioners the calibration
 in force at the last of their moves

---
 bin/get_poscoords | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 3d2c70d..281f0c8 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -91,11 +91,10 @@ for petalid in petalids :
             if k not in posmoves :
                 posmoves[k]=np.zeros(npos)
 
-        for t in tstamp_posmovedb :
-            j=np.where(tstamp_calib<t)[0][-1]
-            for k in calib.keys() :
-                if k == 'time_recorded' : continue
-                posmoves[k][postableindex] = calib[k][j]
+        j=np.where(tstamp_calib<tstamp_posmovedb[postableindex])[0][-1]
+        for k in calib.keys() :
+            if k == 'time_recorded' : continue
+            posmoves[k][postableindex] = calib[k][j]
 
     # by default convert keys to upper case,
     # but with special cases (of course),
-- 
2.43.0


From a10429b23b9305f2e9a7817c0e3b6f37b13dd74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 35/63] fix: get_posmoves_with_fvc_data_using_dates lost the
 times of the images after the first petal

---
 bin/get_posmoves_with_fvc_data_using_dates | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/get_posmoves_with_fvc_data_using_dates b/bin/get_posmoves_with_fvc_data_using_dates
index 45164da..727339c 100755
--- a/bin/get_posmoves_with_fvc_data_using_dates
+++ b/bin/get_posmoves_with_fvc_data_using_dates
@@ -111,8 +111,8 @@ for petalid in petalids :
             #dmt_deltat[i]=tstamp_fvc[j[0]]-tstamp[i]
         else :
             dmt_index[i]=len(dmt)-1
-    tstamp_fvc=tstamp_fvc[dmt_index]
-    dmt_deltat=tstamp_fvc+args.clock_offset-tstamp_posmovedb
+    dmt_tstamp_fvc=tstamp_fvc[dmt_index]
+    dmt_deltat=dmt_tstamp_fvc+args.clock_offset-tstamp_posmovedb
     selection = np.where((dmt_deltat>=0)&(dmt_deltat<=args.deltat_max))[0] # FVC image less than n seconds after move
     print("number of matched FVC images= {}".format(len(selection)))
     #selected_date=date[selection]
@@ -144,7 +144,7 @@ for petalid in petalids :
                 kk=np.where(dmt_xytable["LOCATION"]==loc)[0]
                 if kk.size>0 :
                     posid_tstamp_posmovedb[posid].append(tstamp_posmovedb[i])
-                    posid_tstamp_fvc[posid].append(tstamp_fvc[i])
+                    posid_tstamp_fvc[posid].append(dmt_tstamp_fvc[i])
                     posid_deltat[posid].append(dmt_deltat[i])
                     posid_x_dmt[posid].append(dmt_xytable["X_FP"][kk[0]])
                     posid_y_dmt[posid].append(dmt_xytable["Y_FP"][kk[0]])
@@ -197,7 +197,7 @@ for petalid in petalids :
         x_dmt = posid_x_dmt[posid][jj]
         y_dmt = posid_y_dmt[posid][jj]
         deltat = posid_deltat[posid][jj]
-        tstamp_fvc = posid_tstamp_fvc[posid][jj]
+        matched_tstamp_fvc = posid_tstamp_fvc[posid][jj]
 
         if not args.nocalib :
 
@@ -243,7 +243,7 @@ for petalid in petalids :
         ot["Y_FP"]  = y_dmt[jj]
         ot["DELTAT"]  = deltat[jj]
         ot["TSTAMP_POSMOVE"]  = tstamp_posmovedb[jj]
-        ot["TSTAMP_FVC"]  = tstamp_fvc[jj]
+        ot["TSTAMP_FVC"]  = matched_tstamp_fvc[jj]
 
         if not os.path.isdir(args.outdir) :
             os.makedirs(args.outdir)
-- 
2.43.0


From 4c557a72a3e0829e2ebafc77a48e2f4360b45583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 36/63] fix: get_poscoords failed when values were missing for
 only some of the petals

---
 bin/get_poscoords | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 281f0c8..abe1a90 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -3,7 +3,7 @@
 import os
 import psycopg2
 import numpy as np
-from astropy.table import Table,vstack
+from astropy.table import Table,vstack,Column
 import argparse
 import time
 start_time = time.time()
@@ -118,6 +118,11 @@ for petalid in petalids :
     if otable is None :
         otable = table
     else :
+        # columns with missing values in only one of the tables
+        for k in table.colnames :
+            if (table[k].dtype == object) != (otable[k].dtype == object) :
+                table[k] = Column(table[k].tolist(), dtype=object)
+                otable[k] = Column(otable[k].tolist(), dtype=object)
         otable = vstack([otable,table])
 
 # now compute expected positions
-- 
2.43.0


From cd55cabcb9b0cae9c20b35bc1c30fdac74fd336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 37/63] fix: the log file was ignored if a logger of the same
 level existed already

---
 py/desimeter/log.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/py/desimeter/log.py b/py/desimeter/log.py
index 332bca7..5e4b386 100644
--- a/py/desimeter/log.py
+++ b/py/desimeter/log.py
@@ -33,6 +33,13 @@ def get_logger(level=None, path=None, timestamps=False):
     else:
         raise ValueError('Unknown log level {}; should be DEBUG/INFO/WARNING/ERROR/CRITICAL'.format(level))
 
+    # create formatter
+    kwargs = {'fmt': '%(levelname)s:%(filename)s:%(lineno)s:%(funcName)s:%(message)s'}
+    if timestamps:
+        kwargs['fmt'] = '%(asctime)s:' + kwargs['fmt']
+        kwargs['datefmt'] = '%Y%m%dT%H%M%S%z'
+    formatter = logging.Formatter(**kwargs)
+
     if level not in _loggers:
         logger = logging.getLogger('desimeter.'+level)
         logger.setLevel(loglevel)
@@ -44,30 +51,23 @@ def get_logger(level=None, path=None, timestamps=False):
         ch = logging.StreamHandler()
         ch.setLevel(loglevel)
 
-        # optionally create file handler, similarly
-        if path:
-            fh = logging.FileHandler(filename=path, mode='a', encoding='utf-8')
-            fh.setLevel(loglevel)
-        else:
-            fh = None
-
-        # create formatter
-        kwargs = {'fmt': '%(levelname)s:%(filename)s:%(lineno)s:%(funcName)s:%(message)s'}
-        if timestamps:
-            kwargs['fmt'] = '%(asctime)s:' + kwargs['fmt']
-            kwargs['datefmt'] = '%Y%m%dT%H%M%S%z'
-        formatter = logging.Formatter(**kwargs)
-
         # add formatter to ch
         ch.setFormatter(formatter)
-        if fh:
-            fh.setFormatter(formatter)
 
-        # add handlers to logger
+        # add handler to logger
         logger.addHandler(ch)
-        if fh:
-            logger.addHandler(fh)
 
         _loggers[level] = logger
 
-    return _loggers[level]
+    logger = _loggers[level]
+
+    # optionally create file handler, similarly (also if the logger exists already)
+    if path:
+        paths = [h.baseFilename for h in logger.handlers if isinstance(h, logging.FileHandler)]
+        if os.path.abspath(path) not in paths:
+            fh = logging.FileHandler(filename=path, mode='a', encoding='utf-8')
+            fh.setLevel(loglevel)
+            fh.setFormatter(formatter)
+            logger.addHandler(fh)
+
+    return logger
-- 
2.43.0


From 39b84253a1ecac1946b8a0cf1da6f1d1db4e7835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 38/63] fix: prepare_posparams_for_instr failed if no value at
 all was missing from the input table

---
 bin/prepare_posparams_for_instr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index b7d78e2..8aef7ad 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -247,10 +247,10 @@ required_keys = {'POS_ID', 'FLAGS', 'DEVICE_LOC', 'NUM_POINTS', 'DATA_END_DATE',
 required_keys |= set(fitter.static_keys)
 if uargs.allow_scale:
     required_keys |= {'FIT_ERROR_DYNAMIC', 'NUM_POINTS_IN_FIT_DYNAMIC'}
-mask_table = new_table.mask
-masked_list = mask_table['POS_ID']
+masked_list = np.zeros(len(new_table), dtype=bool)
 for key in required_keys:
-    masked_list |= mask_table[key]
+    if hasattr(new_table[key], 'mask'): # columns without any missing value have no mask
+        masked_list |= new_table[key].mask
 new_table = _eliminate_rows(new_table, masked_list, 'paramfits file missing required value(s)', 'paramfits data complete')
 
 # check functions
-- 
2.43.0


From a5ca43941318a2d8a25fa90803702eed25dd5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 39/63] fix: the mode of prepare_posparams_for_instr was
 confirmed by refusing it twice

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 8aef7ad..73fc37d 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -163,7 +163,7 @@ def yesnohelp(message, yes=True, no=True, help_=True, exit_=True):
     if exit_ and answer.lower() in {'exit'}:
         logger.info('Exiting at user request.')
         sys.exit(0)
-    return yesnohelp(message)
+    return yesnohelp(message, yes=yes, no=no, help_=help_, exit_=exit_)
 
 def str2float(s):
     '''Returns float, or None if string s can not be converted to float.'''
-- 
2.43.0


From 96ea04e391f70fc19e3eb9938892cfb828ab0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 40/63] fix: prepare_posparams_for_instr kept another row than
 the selected option, or none

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 73fc37d..0997562 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -415,7 +415,7 @@ def check_uniqueness(table):
                 logger.info(f'All {len(row_idxs)} rows for {posid} skipped (removed from table)')
                 retry = False
             elif user_input in {str(i) for i in options.keys()}:
-                delete_idxs = row_idxs[row_idxs != int(user_input)]
+                delete_idxs = np.delete(row_idxs, int(user_input))
                 new.remove_rows(delete_idxs)
                 logger.info(f'{len(delete_idxs)} rows for {posid} removed')
                 n_remaining = len(get_row_idxs(new, posid))
-- 
2.43.0


From 49827a8f4d78ece65ea5a93a814d5192e776c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 41/63] fix: merge_posparams gave rows without locations
 (failed fits) a meaningless LOCATION

---
 bin/merge_posparams | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index e96a59d..857c8ce 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -22,7 +22,7 @@ args = parser.parse_args()
 
 import os, sys
 import numpy as np
-from astropy.table import Table, vstack
+from astropy.table import Table, vstack, MaskedColumn
 import desimeter.io
 from desimeter.log import get_logger
 
@@ -71,7 +71,7 @@ for table in tables :
 posparams = vstack(tables)
 if "LOCATION" not in posparams.dtype.names :
     if "PETAL_LOC" in posparams.dtype.names and "DEVICE_LOC" in posparams.dtype.names :
-        posparams["LOCATION"]=1000*np.array(list(posparams["PETAL_LOC"])).astype(int)+np.array(list(posparams["DEVICE_LOC"])).astype(int)
+        posparams["LOCATION"]=1000*posparams["PETAL_LOC"].astype(int)+posparams["DEVICE_LOC"].astype(int)
 
 device_id_key="DEVICE_ID"
 if not device_id_key in posparams.dtype.names : # add device id because that's how it's called elsewhere in the code
@@ -81,20 +81,21 @@ if not device_id_key in posparams.dtype.names : # add device id because that's h
     sys.exit(12)
 
 
-if "DEVICE_LOC" not in posparams.dtype.names and (not args.no_metrology) :
-    # merge metrology info
+if not args.no_metrology :
+    # merge metrology info where it is missing (also for only some of the rows, like failed fits)
 
     metrology = desimeter.io.load_metrology()
     pid2ind = {pid:i for i,pid in enumerate(metrology["DEVICE_ID"])}
     npos=len(posparams)
     keys = ["LOCATION","DEVICE_LOC","PETAL_LOC","PETAL_ID"]
     for k in keys :
-        posparams[k]=-1*np.ones(npos,dtype=int)
-    for j,pid in enumerate(posparams[device_id_key]) :
-        if pid in pid2ind :
-            i=pid2ind[pid]
-            for k in keys :
-                posparams[k][j]=metrology[k][i]
+        if k not in posparams.dtype.names :
+            posparams[k]=MaskedColumn(-1*np.ones(npos,dtype=int),mask=np.ones(npos,dtype=bool))
+        if not hasattr(posparams[k],"mask") :
+            continue
+        for j in np.where(posparams[k].mask)[0] :
+            pid=posparams[device_id_key][j]
+            posparams[k][j] = metrology[k][pid2ind[pid]] if pid in pid2ind else -1
 
 if not args.no_check and not args.no_metrology :
 
-- 
2.43.0


From 7f9ec38bb7c68c607896bee491fac05fd4c47fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 42/63] fix: merge_posparams accepted locations that differ
 from the metrology

---
 bin/merge_posparams | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index 857c8ce..f508853 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -111,7 +111,7 @@ if not args.no_check and not args.no_metrology :
         for k in ["DEVICE_LOC","LOCATION","PETAL_LOC","PETAL_ID"] :
             if posparams[k][j] != metrology[k][i] :
                 log.error("for {}={} {}={} != {} from metrology".format(device_id_key,pid,k,posparams[k][j],metrology[k][i]))
-                has_errors = True
+                has_error = True
     if has_error :
         sys.exit(12)
 
-- 
2.43.0


From 280d87f6a0dd62103bc73a89386d085e0fff6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 43/63] fix: positioners whose fit failed were lost silently,
 or ended the program with one process

---
 bin/fit_posparams | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bin/fit_posparams b/bin/fit_posparams
index 7330780..241af2e 100755
--- a/bin/fit_posparams
+++ b/bin/fit_posparams
@@ -116,13 +116,20 @@ if __name__ == '__main__':
                       'force_recent_rehome': args.force_recent_rehome,
                       'outlier_rejection':args.outlier_rejection
                       }
+            def report(error, posid=posid):
+                print(f'ERROR: {posid} fit failed with {type(error).__name__}: {error}')
+
             if args.n_processes_max == 1:
-                logstr = fithandler.run_best_fits(**kwargs)
-                print(logstr)
+                try:
+                    logstr = fithandler.run_best_fits(**kwargs)
+                    print(logstr)
+                except Exception as error: # continue with the other positioners
+                    report(error)
             else:
                 pool.apply_async(fithandler.run_best_fits,
                                  kwds=kwargs,
-                                 callback=print)
+                                 callback=print,
+                                 error_callback=report)
         pool.close()
         pool.join()
     print('Complete.')
-- 
2.43.0


From 925020de53c5397d56eaeda1d2fe33fdedb8ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 44/63] fix: fit_raytrace_tan2fp read a ray tracing table that
 does not exist unless told otherwise

---
 bin/fit_raytrace_tan2fp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/fit_raytrace_tan2fp b/bin/fit_raytrace_tan2fp
index 52dc89d..4cf2b42 100755
--- a/bin/fit_raytrace_tan2fp
+++ b/bin/fit_raytrace_tan2fp
@@ -20,7 +20,7 @@ from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
 parser = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter,
                                      description="""Fit ray tracing data to model the tan2fp transform with corrector distortions.""")
 
-parser.add_argument('-i','--infile', type = str, default = None, required = False, help = 'trace tracing data, default is data/raytrace-tan2fp-4957-v17.csv')
+parser.add_argument('-i','--infile', type = str, default = None, required = False, help = 'trace tracing data, default is data/raytrace-tan2fp-4957-v18.csv')
 parser.add_argument('-o','--outfile', type = str, default = None, required = True, help = 'output json file with fitted transfo.')
 parser.add_argument('--plot',action="store_true",help="test and plot the transfo results.")
 parser.add_argument('--test',action="store_true",help="test (but dont plot).")
@@ -30,7 +30,7 @@ args = parser.parse_args()
 if args.infile :
     ifilename = args.infile
 else :
-    ifilename = resource_filename("desimeter","data/raytrace-tan2fp-4957-v17.csv")
+    ifilename = resource_filename("desimeter","data/raytrace-tan2fp-4957-v18.csv")
 
 print("reading {}".format(ifilename))
 table = Table.read(ifilename,format="csv")		
-- 
2.43.0


From 1b1bb1e092e675757cbe0e5df3b79b0f48c8af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 45/63] fix: load_petal_alignments_from_db also selected
 elements of other groups with the same version number

---
 bin/load_petal_alignments_from_db | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/load_petal_alignments_from_db b/bin/load_petal_alignments_from_db
index fd1ef4b..05d7479 100755
--- a/bin/load_petal_alignments_from_db
+++ b/bin/load_petal_alignments_from_db
@@ -30,7 +30,7 @@ res = cx.fetchall()
 snap_ver = np.max(res)
 
 # read petal alignment for all petals
-query="SELECT constants.elements.name, constants.elements.constants FROM constants.groups, constants.elements,constants.group_to_snapshot, constants.snapshots,constants.element_to_group WHERE constants.group_to_snapshot.snapshot_name = 'DESI' AND constants.group_to_snapshot.snapshot_version = '{snap_ver}' AND constants.groups.name = 'focal_plane_metrology' AND constants.groups.version = constants.group_to_snapshot.group_version AND constants.snapshots.version = constants.group_to_snapshot.snapshot_version AND constants.group_to_snapshot.group_name = constants.element_to_group.group_name AND constants.group_to_snapshot.group_version = constants.element_to_group.group_version AND constants.element_to_group.element_name = constants.elements.name AND constants.element_to_group.element_version = constants.elements.version ORDER BY constants.elements.name".format(snap_ver=snap_ver)
+query="SELECT constants.elements.name, constants.elements.constants FROM constants.groups, constants.elements,constants.group_to_snapshot, constants.snapshots,constants.element_to_group WHERE constants.group_to_snapshot.snapshot_name = 'DESI' AND constants.group_to_snapshot.snapshot_version = '{snap_ver}' AND constants.groups.name = 'focal_plane_metrology' AND constants.groups.name = constants.group_to_snapshot.group_name AND constants.groups.version = constants.group_to_snapshot.group_version AND constants.snapshots.version = constants.group_to_snapshot.snapshot_version AND constants.group_to_snapshot.group_name = constants.element_to_group.group_name AND constants.group_to_snapshot.group_version = constants.element_to_group.group_version AND constants.element_to_group.element_name = constants.elements.name AND constants.element_to_group.element_version = constants.elements.version ORDER BY constants.elements.name".format(snap_ver=snap_ver)
 cx.execute(query)
 res = cx.fetchall()
 alignments = {int(petal_loc): {'Tx': data['petal_offset_x'],
-- 
2.43.0


From 0208938090c4e8e2c8bea908734473de6b7e7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 46/63] fix: entries without counterpart in another metrology
 were fitted as if at the centre of the focal plane

---
 bin/desi_fit_fvc2fp_using_theta_centers | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bin/desi_fit_fvc2fp_using_theta_centers b/bin/desi_fit_fvc2fp_using_theta_centers
index 7e8c757..846c8a9 100755
--- a/bin/desi_fit_fvc2fp_using_theta_centers
+++ b/bin/desi_fit_fvc2fp_using_theta_centers
@@ -44,8 +44,6 @@ for filename in args.infile :
     print(filename)
     if not os.path.isfile(filename) : continue
     t=Table.read(filename)
-    x1.append(t["X_FP"])
-    y1.append(t["Y_FP"])
 
     if other_metrology is not None :
         print("matching to other metrology...")
@@ -55,16 +53,15 @@ for filename in args.infile :
         eloc=(np.array(t["LOCATION"])*10+np.array(t["PINHOLE_ID"])).astype(int)
         meloc=(np.array(other_metrology["LOCATION"])*10+np.array(other_metrology["PINHOLE_ID"])).astype(int)
         l2i={l:i for i,l in enumerate(meloc)}
-        for j in range(t["X_FP"].size):
-            if eloc[j] in l2i :
-                i=l2i[eloc[j]]
-                t["X_FP_METRO"][j]=other_metrology["X_FP"][i]
-                t["Y_FP_METRO"][j]=other_metrology["Y_FP"][i]
-            else :
-                t["X_FP_METRO"][j]=0.
-                t["Y_FP_METRO"][j]=0.
+        matched=np.array([l in l2i for l in eloc],dtype=bool)
+        t=t[matched] # only use the entries with a match
+        indices=[l2i[l] for l in eloc[matched]]
+        t["X_FP_METRO"]=np.array(other_metrology["X_FP"])[indices]
+        t["Y_FP_METRO"]=np.array(other_metrology["Y_FP"])[indices]
         print("match to other metrology is done")
 
+    x1.append(t["X_FP"])
+    y1.append(t["Y_FP"])
     x2.append(t["X_FP_METRO"])
     y2.append(t["Y_FP_METRO"])
 
-- 
2.43.0


From 7988d37b2df14e96eb5969334dda6e5d693259cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 47/63] fix: detect_and_match_moving_positioners used false
 spots far from each other to align the images

---
 bin/detect_and_match_moving_positioners | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bin/detect_and_match_moving_positioners b/bin/detect_and_match_moving_positioners
index 3eb2944..518bf5b 100755
--- a/bin/detect_and_match_moving_positioners
+++ b/bin/detect_and_match_moving_positioners
@@ -82,7 +82,6 @@ if args.plot :
 indices_2, distances = match_same_system(xpix1,ypix1,xpix2,ypix2)
 indices_1 = np.arange(len(t1),dtype=int)
 ok=np.where((indices_2>=0)&(distances<50.))[0]
-ok=np.where((indices_2>=0))[0]
 indices_1 = indices_1[ok]
 indices_2 = indices_2[ok]
 distances = distances[ok]
-- 
2.43.0


From e9d22912ecca0434c12978ce2224056b212d9ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 48/63] fix: ok2move wrote no page for the last group if it is
 not complete

---
 bin/ok2move | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/ok2move b/bin/ok2move
index 22b7e38..a071809 100755
--- a/bin/ok2move
+++ b/bin/ok2move
@@ -171,10 +171,11 @@ def main():
             outfile = '{}/{}.png'.format(args.plotdir, spots['DEVICE_ID'][i])
             plot_positioner(fvcimage, spots, i, ok, outfile)
 
-        for i in range(len(okids)//args.groupsize):
+        for i in range(len(okids)//args.groupsize+1):
             ids = okids[i*args.groupsize:(i+1)*args.groupsize]
-            htmlfile = f'{args.plotdir}/group{i}.html'
-            write_group_html(htmlfile, ids)
+            if len(ids)>0 :
+                htmlfile = f'{args.plotdir}/group{i}.html'
+                write_group_html(htmlfile, ids)
 
         htmlfile = f'{args.plotdir}/dontmove.html'
         write_group_html(htmlfile, spots['DEVICE_ID'][~ok])
-- 
2.43.0


From 748821098f877e286f541250ac339276beb67a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 49/63] fix: ok2move could find that a positioner with both
 neighbors in the same direction is not ok to move

---
 bin/ok2move | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ok2move b/bin/ok2move
index a071809..8e8ae31 100755
--- a/bin/ok2move
+++ b/bin/ok2move
@@ -42,7 +42,7 @@ def find_neighbors(spots):
         v1 = np.array([dx[j], dy[j]])
         v2 = np.array([dx[k], dy[k]])
         cosangle = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
-        angle[i] = np.rad2deg( np.arccos(cosangle) )
+        angle[i] = np.rad2deg( np.arccos(np.clip(cosangle, -1, 1)) )
 
     return indices, dist, angle
 
-- 
2.43.0


From 6a68c108190fcdbf80c6a501f7a985bcd30e214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 50/63] fix: write_fvc_image_processing_scripts made the images
 executable instead of the jobs

---
 bin/write_fvc_image_processing_scripts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/write_fvc_image_processing_scripts b/bin/write_fvc_image_processing_scripts
index ddaf38f..199dca8 100755
--- a/bin/write_fvc_image_processing_scripts
+++ b/bin/write_fvc_image_processing_scripts
@@ -50,7 +50,7 @@ for line in ifile.readlines() :
     #print(filename)
     if count >= args.ntasks_per_job :
         jobfile.close()
-        subprocess.call(['chmod', '+x', filename])
+        subprocess.call(['chmod', '+x', jobfilename])
         print("wrote",jobfilename)
         jobid += 1
         jobfilename=os.path.join(args.jobdir,"job-%03d.sh"%jobid)
@@ -118,7 +118,7 @@ for line in ifile.readlines() :
     #if count>20 : break
 
 jobfile.close()
-subprocess.call(['chmod', '+x', filename])
+subprocess.call(['chmod', '+x', jobfilename])
 print("wrote",jobfilename)
 
 t=Table()
-- 
2.43.0


From efba68c3d58cc7f9c345cd4e7fe2ec00727e6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 51/63] fix: write_fvc_image_processing_scripts ended with an
 error when run again

---
 bin/write_fvc_image_processing_scripts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/write_fvc_image_processing_scripts b/bin/write_fvc_image_processing_scripts
index 199dca8..51d01b5 100755
--- a/bin/write_fvc_image_processing_scripts
+++ b/bin/write_fvc_image_processing_scripts
@@ -125,5 +125,5 @@ t=Table()
 t["DATE"]=dates
 t["FILE"]=filenames
 ofilename=os.path.join(args.outdir,"fvc-desimeter-and-dates.csv")
-t.write(ofilename,format="csv")
+t.write(ofilename,format="csv",overwrite=True)
 print("wrote",ofilename)
-- 
2.43.0


From 4aee36fc86c611508d01bf68ba4b3cca6a2855f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 52/63] fix: elbow was not a number for a fiber at the center
 of its positioner

---
 py/desimeter/match_positioners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index 849d57d..a122594 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -266,7 +266,7 @@ def print_groupings(fvc, metr, assignment, alternatives, file=None,
                 if r1 + r2 <= dist:
                     xpt = (r1*tfvc0['X_FP'] + r2*tm['X_FP'])/(r1+r2)
                     ypt = (r1*tfvc0['Y_FP'] + r2*tm['Y_FP'])/(r1+r2)
-                elif np.abs(r1-r2) > dist:
+                elif np.abs(r1-r2) >= dist:
                     ypt = tm['Y_FP'] + 0
                     xpt = tm['X_FP'] + 3
                 else:
-- 
2.43.0


From 465af486ef0271a266bb5ee0fa9cd6a17f68dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 53/63] fix: number of FVC images between measurements is not
 known across exposures

---
 bin/analyze_pos_performance | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/analyze_pos_performance b/bin/analyze_pos_performance
index 8f3ae63..af59a4a 100755
--- a/bin/analyze_pos_performance
+++ b/bin/analyze_pos_performance
@@ -682,6 +682,8 @@ def detect_num_fvc_images(table):
     new['NUM_IMAGES'] = num_images
     zeroth_exp_iters = new['EXPOSURE_ITER'] == 0
     new['NUM_IMAGES'][zeroth_exp_iters] = null_num_images
+    first_in_exposure = np.append(True, np.diff(new['EXPOSURE_ID']) != 0)  # previous iteration belongs to another exposure
+    new['NUM_IMAGES'][first_in_exposure] = null_num_images
     return new
 
 def calc_radii(table, tag=TRACKED):
-- 
2.43.0


From dd62114807fd6d5d92c753a550e6925ba73e3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 54/63] fix: files of any kind were read as data if the name of
 their directory contains csv

---
 bin/analyze_pos_performance | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/analyze_pos_performance b/bin/analyze_pos_performance
index af59a4a..4cb4816 100755
--- a/bin/analyze_pos_performance
+++ b/bin/analyze_pos_performance
@@ -309,7 +309,7 @@ def read(path):
     OUTPUT:  data ... dict with keys = posids and values = astropy tables
     '''
     data = {}
-    if 'csv' not in path:
+    if 'csv' not in os.path.basename(path):
         return data  # i.e. skip non-data files
     table = Table.read(path)
     missing = required - set(table.columns)
-- 
2.43.0


From 7158980ea3560b855d24e065e5dc5e139f400c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 55/63] fix: calibration offsets were added twice to requests
 made in poslocTP

---
 bin/analyze_pos_performance_legacy | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index 414810d..7d5f8d4 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -470,10 +470,8 @@ def identify_requests(table):
                                                    t_offset=new['OFFSET_T'][i],
                                                    p_offset=new['OFFSET_P'][i])
                 elif coord == 'poslocTP':
-                    t_ext = pos2ptl.int2ext(vals0[i], new['OFFSET_T'][i])
-                    p_ext = pos2ptl.int2ext(vals1[i], new['OFFSET_P'][i])
-                    x_loc, y_loc = pos2ptl.ext2loc(t_ext=t_ext,
-                                                   p_ext=p_ext,
+                    x_loc, y_loc = pos2ptl.ext2loc(t_ext=vals0[i],
+                                                   p_ext=vals1[i],
                                                    r1=new['LENGTH_R1'][i],
                                                    r2=new['LENGTH_R2'][i])
                 else:
-- 
2.43.0


From 846269a98b60a36688e4c3661637aa06572d168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 56/63] fix: legacy performance analysis counted images across
 exposures and read any file of a directory named like csv

---
 bin/analyze_pos_performance_legacy | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index 7d5f8d4..2514d86 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -246,7 +246,7 @@ def read(path):
     OUTPUT:  data ... dict with keys = posids and values = astropy tables
     '''
     data = {}
-    if 'csv' not in path:
+    if 'csv' not in os.path.basename(path):
         return data  # i.e. skip non-data files
     table = Table.read(path)
     missing = required - set(table.columns)
@@ -634,6 +634,8 @@ def detect_num_fvc_images(table):
     new['NUM_IMAGES'] = num_images
     zeroth_exp_iters = new['EXPOSURE_ITER'] == 0
     new['NUM_IMAGES'][zeroth_exp_iters] = null_num_images
+    first_in_exposure = np.append(True, np.diff(new['EXPOSURE_ID']) != 0)  # previous iteration belongs to another exposure
+    new['NUM_IMAGES'][first_in_exposure] = null_num_images
     return new
 
 def calc_radii(table, tag=TRACKED):
-- 
2.43.0


From 784c00958769711313545b4011e14bab1d80432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 57/63] fix: legacy performance analysis failed if the smallest
 errors are all of moves that were not accepted

---
 bin/analyze_pos_performance_legacy | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index 2514d86..21f94fc 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -380,9 +380,8 @@ def get_idxs(table, submove, sigma=None, tag=TRACKED, as_bool=False):
     OUTPUT: list of row index integers
     '''
     selection = table['SUBMOVE'] == submove
-    super_tag = get_super_tag(tag)
     if sigma:
-        selection &= table[add_tag(super_tag, 'SIGMA_CEILING')] <= sigma
+        selection &= table[add_tag(tag, 'SIGMA_CEILING')] <= sigma
     if tag == ACCEPTED:
         selection &= table[ACCEPTED]
     if as_bool:
@@ -775,8 +774,7 @@ def summarize_stats(table, tag=TRACKED, stat_names=stat_funcs.keys()):
                      and columns corresponding to the uppercased names of the argued
                      stats functions. Table includes metadata: n_positioners, n_targets
     '''
-    reduce_to_accepted = tag == ACCEPTED
-    tag = REQUESTED if reduce_to_accepted else tag
+    super_tag = get_super_tag(tag)
     missing_funcs = set(stat_names) - set(stat_funcs)
     assert not(any(missing_funcs)), f'undefined stat funcs {missing_funcs}'
     uppercase_names = {key: key.upper() for key in stat_names}
@@ -790,16 +788,16 @@ def summarize_stats(table, tag=TRACKED, stat_names=stat_funcs.keys()):
     min_radius = math.inf
     for submove in submoves:
         submove_selection = table['SUBMOVE'] == submove
-        if reduce_to_accepted:
+        if tag == ACCEPTED:
             submove_selection = np.logical_and(submove_selection, table[ACCEPTED])
-        radii = table[add_tag(tag, 'RADIUS')][submove_selection].tolist()
+        radii = table[add_tag(super_tag, 'RADIUS')][submove_selection].tolist()
         max_radius = max(max_radius, max(radii))
         min_radius = min(min_radius, min(radii))
         for sigma in sigmas:
             quantile = sigmas[sigma]
             within_quantile = table[add_tag(tag, 'QUANTILE_CEILING')] <= quantile
             quantile_selection = np.logical_and(within_quantile, submove_selection)
-            err = table[add_tag(tag, 'ERR_XY')][quantile_selection].tolist()
+            err = table[add_tag(super_tag, 'ERR_XY')][quantile_selection].tolist()
             new_dict['SUBMOVE'].append(submove)
             new_dict['SIGMA'].append(sigma)
             new_dict['QUANTILE'].append(quantile)
-- 
2.43.0


From 0bc2928d7a4f7bad3e9f444a52871b7682a2c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 58/63] fix: positioner transforms accept tuples of a single
 element, as documented

---
 py/desimeter/transform/pos2ptl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index 92faf39..e60eeb1 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -359,7 +359,7 @@ def ptl2int(x_ptl, y_ptl, r1, r2, t_offset, p_offset, x_offset, y_offset,
 
 def _to_numpy(u):
     '''Internal function to cast values to consistent numpy vectors.'''
-    if isinstance(u, list):
+    if isinstance(u, (list, tuple)):
         return np.array(u)
     if np.size(u) == 1:
         return np.array([float(u)])
@@ -371,6 +371,8 @@ def _to_list(u):
     '''Internal function to cast values to consistent python list vectors.'''
     if isinstance(u, list):
         return u
+    if isinstance(u, tuple):
+        return list(u)
     if np.size(u) == 1:
         if u == None:
             return [None]
-- 
2.43.0


From f324a9e98483c2401ddec2894effcbd0042030a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 59/63] fix: a theta guess far from every configuration in
 range is ignored, as documented

---
 py/desimeter/transform/xy2tp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py/desimeter/transform/xy2tp.py b/py/desimeter/transform/xy2tp.py
index 14943a6..931c8d8 100644
--- a/py/desimeter/transform/xy2tp.py
+++ b/py/desimeter/transform/xy2tp.py
@@ -120,8 +120,7 @@ def xy2tp(xy, r, ranges, t_guess=None, t_guess_tol=default_t_guess_tol):
         for opt in options:
             opt['closeness'] = abs(opt['TP'][0] - t_guess)
             opt['closeness_fail'] = opt['closeness'] > t_guess_tol
-        all_fail = all(opt['closeness_fail'] for opt in options) or \
-                   all(opt['range_fail'] for opt in options)
+        all_fail = all(opt['closeness_fail'] or opt['range_fail'] for opt in options)
         if not all_fail:
             options.sort(key=lambda x: x['closeness'])  # tertiary sort
             options.sort(key=lambda x: x['closeness_fail'])  # secondary sort
-- 
2.43.0


From 394bca4978785de2afcfa121849e04f329d25451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 60/63] fix: process_fvc processes files whose path contains
 blanks

---
 py/desimeter/processfvc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 9314c6c..66204ca 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -57,9 +57,9 @@ def process_fvc(filename, overwrite=False, use_subprocess=True):
         return Table.read(outfilename)
     if use_subprocess:
         # Use a subprocess to invoke bin/desi_fvc_proc in a login environment.
-        cmd="desi_fvc_proc -i {} -o {}".format(filename,outfilename)
-        print("running '{}'".format(cmd))
-        errcode=subprocess.call(cmd.split())
+        cmd=["desi_fvc_proc","-i",filename,"-o",outfilename]
+        print("running '{}'".format(" ".join(cmd)))
+        errcode=subprocess.call(cmd)
     else:
         # Use the current environment.
         parser = get_parser()
-- 
2.43.0


From 769e8131e7b03c9ca9d223331d14cde949ad8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 61/63] fix: one point can be converted to angles with several
 calibrations, not only with the first

---
 py/desimeter/transform/pos2ptl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index e60eeb1..3b11f11 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -163,7 +163,9 @@ def loc2ext(x_loc, y_loc, r1, r2, t_offset, p_offset,
     p_offset = _to_list(p_offset)
     t_guess = _to_list(t_ext_guess)
     t_guess_tol = _to_list(t_guess_tol)
-    n = len(x_loc)
+    n = len(x_loc) and max(len(u) for u in [x_loc, y_loc, r1, r2, t_offset, p_offset, t_guess, t_guess_tol])
+    x_loc = _extend_list(x_loc, n)
+    y_loc = _extend_list(y_loc, n)
     r1 = _extend_list(r1, n)
     r2 = _extend_list(r2, n)
     t_offset = _extend_list(t_offset, n)
-- 
2.43.0


From 4ec9a472f0ba46b3d5126d7b4923661bbb7fc720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 62/63] fix: match guide stars across RA 0 with the shortest
 difference

---
 py/desimeter/fieldmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index a21eb38..1207915 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -144,7 +144,9 @@ class FieldModel(object):
             dec_column = 'dec_gaia'
             log.warning("No proper motion info in catalog")
 
-        match_dra  = (catalog["ra"]-catalog[ra_column])*cosd(catalog[dec_column]) * 3600. # arcsec
+        match_dra  = catalog["ra"]-catalog[ra_column]
+        match_dra  = (match_dra+180.)%360.-180. # shortest way, RA wraps at 360
+        match_dra  = match_dra*cosd(catalog[dec_column]) * 3600. # arcsec
         match_ddec = (catalog["dec"]-catalog[dec_column]) * 3600. # arcsec
 
         dr = np.hypot(match_dra, match_ddec)
-- 
2.43.0


From 2c6641e76f602ee4859a5d2c3be6396734eb3fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 63/63] fix: remove all duplicate detections of spots, also
 when there are more than 100

---
 py/desimeter/detectspots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index 0f34c14..ccef84a 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -240,7 +240,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         yerr=yerr[good]
         counts=counts[good]
 
-    for _ in range(100) :
+    for _ in range(npeak) : # at most one duplicate removed per iteration
         # iterate, removing duplicates
         xy=np.array([xpix,ypix]).T
         tree = KDTree(xy)
-- 
2.43.0

