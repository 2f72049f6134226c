From 3c054a007158c781fc7d72ec0b004ac8d4d3a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 01/12] fix: reset intermediate values when a gravity
 computation fails

---
 geec/polyhedron.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..705e358 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -995,14 +995,16 @@ class Polyhedron:
         # self.set_origin(coord)
         T = np.zeros((3, 3))
 
-        for face in self.faces:
-            (g, t) = face.get_gravity(coord, density, Gc, gradient)
-            G += g
-            T += t
-
-        # reset intermediate variables, and shift back origin
-        # self.reset_origin(coord)
-        self.reset(coord)
+        try:
+            for face in self.faces:
+                (g, t) = face.get_gravity(coord, density, Gc, gradient)
+                G += g
+                T += t
+        finally:
+            # reset intermediate variables, and shift back origin
+            # (even if something goes wrong, not to spoil the next computation)
+            # self.reset_origin(coord)
+            self.reset(coord)
 
         return (G, T)
 
-- 
2.43.0


From 894842ca59761166422845704eb0e2fb90631989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 02/12] fix: wrong or NaN fields at observation points in line
 with an edge

---
 geec/polyhedron.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 705e358..167b546 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -204,15 +204,16 @@ class Edge:
             R1, R2 = (self.points[0] - obs, self.points[1] - obs)
             r1, r2 = (np.linalg.norm(R1), np.linalg.norm(R2))
 
-            chsgn = 1  # if origin,p1 & p2 are on a st line
-            if r1 > r2 and np.dot(R1, R2) / (r1 * r2) == 1:  # p1 farther than p2
+            Lj = self.vector
+            lj = self.length
+
+            chsgn = 1  # if origin,p1 & p2 are (nearly) on a st line
+            if r1 > r2 and 1 - np.dot(R1, R2) / (r1 * r2) < 1e-8:  # p1 farther than p2
                 R1 = R2  # interchange p1,p2
                 r1 = r2
+                Lj = -Lj
                 chsgn = -1
 
-            Lj = self.vector
-            lj = self.length
-
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
@@ -230,7 +231,7 @@ class Edge:
 
             # change sign of I if p1,p2 were interchanged
             self._pqr = pqr * chsgn
-            self._dpqr = dpqr
+            self._dpqr = dpqr * chsgn if gradient else dpqr
             # assign twin value
             self._set_twin_pqr()
 
@@ -408,8 +409,9 @@ class Face:
 
         self._omega = 0
         self._domega = np.zeros(3)
-        if abs(self._dp1) > epsilon:
-            points = self.points - obs  # [p1,p2,p3]
+        points = self.points - obs  # [p1,p2,p3]
+        # observation point on the plane of the face (up to rounding errors): omega = 0
+        if abs(self._dp1) > 8 * epsilon * np.linalg.norm(points[0]):
             dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
-- 
2.43.0


From 11546c28780a8a217ecc73601e64cc14798d8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 03/12] fix: do not wrap local ENU coordinates as longitudes

---
 geec/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..1a994aa 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, local ENU or ECEF coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
-- 
2.43.0


From 69ffa4802efafe064e538c26c05fae1ca4d27f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 04/12] fix: do not add geoid heights to local ENU coordinates

---
 geec/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 1a994aa..b519942 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -56,10 +56,10 @@ class Dataset:
         """Convert altitude to ellipsoid height,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, local ENU or ECEF coordinate system, do nothing.
         """
         CRS_ELLPSH = {
-            geec.crs.CRSEnum.ENU: geec.crs.ellipsoid_height,
+            geec.crs.CRSEnum.ENU: lambda x, y: (x, y),
             geec.crs.CRSEnum.ELLPS: geec.crs.ellipsoid_height,
             geec.crs.CRSEnum.ECEF: lambda x, y: (x, y),
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
-- 
2.43.0


From edfd6ffdccc5980af50385141d880d2d4221d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 05/12] fix: use density and gravity constant of each mass body

---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..ce85a4d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for poly, mass in zip(p, masses, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From 062d95a5ea64be775cd69308fc16d913d98f52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 06/12] fix: compute gravity in the coordinates system of the
 mass bodies

---
 geec/cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index ce85a4d..c0c013c 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -67,9 +67,14 @@ def run(
 
     # observation points
     observer = geec.observer.get_observer(config)
+    observer.to_lon180()
+    observer.to_ellipsoid_height()
     observer.to_wgs84()
-
     obs_points = observer.dataset.coords
+    # stations must be in the same coordinates system as the mass bodies
+    observer.to_ecef()
+    stations = observer.dataset.coords
+
     obs_name = observer.coords_name
     obs_unit = observer.coords_unit
 
@@ -85,7 +90,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=stations)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0


From 06b07229d583e8bd5ec49daa0aadd1b293547850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 07/12] fix: accept the documented egm2008 vertical datum

---
 geec/crs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..4f8641c 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -164,10 +164,12 @@ def read_ref(config: Subview) -> CRSEnum:
 def read_vdatum(config: Subview) -> VDatumEnum:
     """Read the vertical datum from 'crs' subview (from configuration file)"""
     vdatum = config["vdatum"].get(confuse.Optional(confuse.String("ellps"))).upper()
+    if vdatum.lower() in list(VDatumEnum):
+        return VDatumEnum(vdatum.lower())
     if vdatum not in VDatumEnum.__members__:
         msg = (
             f"Invalid Earth Gravitational Model: {vdatum}. It must be one of"
-            f" {VDatumEnum._member_names_}"
+            f" {[v.value for v in VDatumEnum]}"
         )
         logger.error(msg)
         raise confuse.ConfigValueError(msg)
-- 
2.43.0


From 582077c8057d9f962abd7e616c747e025770fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 08/12] fix: read integer coordinates as floats

---
 geec/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index b519942..8308a90 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -120,12 +120,12 @@ class Dataset:
 def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     if config["points"]:
         coords = config["points"].get()
-        return np.array(coords)
+        return np.array(coords, dtype=float)
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
             df = pd.read_csv(file_path, sep=",", header=None)
-            return df.values
+            return df.values.astype(float)
         else:
             msg = f"File {file_path} not found"
             logger.error(msg)
@@ -138,7 +138,7 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
         z_start, z_end, z_step = grid["zstart_zend_zstep"].get(list)
 
         g = np.mgrid[x_start:x_end:x_step, y_start:y_end:y_step, z_start:z_end:z_step]
-        return np.transpose(g.reshape(len(g), -1))
+        return np.transpose(g.reshape(len(g), -1)).astype(float)
     else:
         msg = "Points must be a list of points or a file"
         logger.error(msg)
-- 
2.43.0


From fa700df4f70bab85a9b886438748c9c3afcffdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:31 +0000
Subject: [PATCH 09/12] fix: reference ellipsoid of points converted to local
 ENU coordinates

---
 geec/crs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index 4f8641c..e9f285e 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -398,6 +398,7 @@ def ecef_to_enu(
 
     # update coordinates reference system
     crs.name = CRSEnum.ENU
+    crs.ellps = _WGS84_
     crs.enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
@@ -425,6 +426,8 @@ def wgs84_to_enu(
     #     raise ValueError(msg)
 
     logger.info("Convert points from WGS84 ellipsoid to ENU coorindates.")
+    if crs.ellps != _WGS84_:
+        points, crs = ellps_to_wgs84(points, crs)
     lon, lat, alt = points.T
     e, n, u = pm.geodetic2enu(lat, lon, alt, lat0, lon0, alt0)
 
-- 
2.43.0


From 204f9745fab4b8c13a110501591aa8d76bc518bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:30 +0000
Subject: [PATCH 10/12] fix: angles undefined or inaccurate close to the plane
 of a face

Rounding takes the cosine of the angle between two planes beyond 1 when the
observation point is close to the plane of a face: acos() then fails, and the
gradient loses most of its digits.
---
 geec/polyhedron.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 167b546..073fa19 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -18,7 +18,7 @@
 # --- import -----------------------------------
 # import from standard lib
 from itertools import pairwise
-from math import acos, log, sqrt
+from math import atan2, log, sqrt
 
 # import from other lib
 import numpy as np
@@ -438,14 +438,15 @@ class Face:
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
                 perp = self._get_perp(i, inout, self.npoints, points, A1)
                 b = self._get_b(A1, A2)
+                sinb = self._get_sinb(A1, A2)
 
-                angle = self._get_angle(i, inout, b, perp)
+                angle = self._get_angle(i, inout, b, sinb, perp)
                 w += angle
                 if gradient:
                     dangle = self._get_dangle(
                         i,
                         inout,
-                        b,
+                        sinb,
                         perp,
                         A1,
                         A2,
@@ -497,11 +498,18 @@ class Face:
 
     @staticmethod
     # @jit(nopython=True)
-    def _get_angle(i: int, inout: float, b: float, perp: float) -> float:
+    def _get_sinb(A1: np.ndarray, A2: np.ndarray) -> float:
+        return np.linalg.norm(cross_product(A1, A2))
+
+    @staticmethod
+    # @jit(nopython=True)
+    def _get_angle(i: int, inout: float, b: float, sinb: float, perp: float) -> float:
         if inout == 0:
             angle = 0
         else:
-            angle = acos(b)
+            # Note: acos(b) is inaccurate, or undefined (|b| > 1 by rounding), when
+            # observation point is close to the plane of the face
+            angle = atan2(sinb, b)
             if perp < 0:
                 angle = 2 * np.pi - angle
         return angle
@@ -511,7 +519,7 @@ class Face:
     def _get_dangle(
         i: int,
         inout: float,
-        b: float,
+        sinb: float,
         perp: float,
         A1: np.ndarray,
         A2: np.ndarray,
@@ -551,10 +559,9 @@ class Face:
         DA2 = (dV2 * v2 - V2 * dv2[:, np.newaxis]) / (v2 * v2)
 
         DB = npdot(DA1, A2) + npdot(DA2, A1)
-        denom = sqrt(1 - b * b)
 
-        if denom != 0:
-            dangle = -DB / denom
+        if sinb != 0:
+            dangle = -DB / sinb
             if perp < 0:
                 dangle = -dangle
 
-- 
2.43.0


From fe91f28ad64257f073a3916ba30f438f99f2d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:33 +0000
Subject: [PATCH 11/12] fix: wrong side of a face seen from far away, or from
 near a corner, in its plane

Rounding errors of the solid angle grow with the distance to the corners of the
face: below them the side the face is seen from is noise, and the solid angle was
wrong by up to 4 pi.
---
 geec/polyhedron.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 073fa19..f479a15 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -411,8 +411,10 @@ class Face:
         self._domega = np.zeros(3)
         points = self.points - obs  # [p1,p2,p3]
         # observation point on the plane of the face (up to rounding errors): omega = 0
-        if abs(self._dp1) > 8 * epsilon * np.linalg.norm(points[0]):
-            dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
+        (R1, R2, R3) = points[:3]
+        area = np.linalg.norm(cross_product(R2 - R1, R3 - R1))
+        distances = np.linalg.norm(points[:3], axis=1)
+        if abs(self._dp1) * area > 8 * epsilon * np.prod(distances):
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
@@ -434,7 +436,8 @@ class Face:
             w = 0
             dw = 0
             for i in range(self.npoints):
-                inout = dots[i]
+                # un.p1 = un.p2 = un.p3, use same value to be consistent
+                inout = self._dp1
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
                 perp = self._get_perp(i, inout, self.npoints, points, A1)
                 b = self._get_b(A1, A2)
-- 
2.43.0


From f8de1210f75aa299c1942e2c972334b2ef1177d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:18 +0000
Subject: [PATCH 12/12] fix: noise of the side of a face next to its own corner

---
 geec/polyhedron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index f479a15..28d4144 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -414,7 +414,8 @@ class Face:
         (R1, R2, R3) = points[:3]
         area = np.linalg.norm(cross_product(R2 - R1, R3 - R1))
         distances = np.linalg.norm(points[:3], axis=1)
-        if abs(self._dp1) * area > 8 * epsilon * np.prod(distances):
+        noise = 8 * epsilon * (np.prod(distances) + distances[0] * area)
+        if abs(self._dp1) * area > noise:
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
-- 
2.43.0

