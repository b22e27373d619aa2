From be6fbf02987380a6277ceba40960250cc9bedbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 1/9] fix: refuse repeated row labels with the documented
 IndexError in Net.check and Mesh.check

---
 src/fibermat/mesh.py | 3 ++-
 src/fibermat/net.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index cda9c09..63adb98 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -277,7 +277,8 @@ class Mesh(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(mesh.index) == np.arange(len(mesh))):
+        if (len(np.unique(mesh.index)) != len(mesh)
+                or not np.all(np.unique(mesh.index) == np.arange(len(mesh)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(mesh) - 1))
         if not np.all(mesh.index == np.arange(len(mesh))):
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index ee92e20..2beede9 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -353,7 +353,8 @@ class Net(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(net.index) == np.arange(len(net))):
+        if (len(np.unique(net.index)) != len(net)
+                or not np.all(np.unique(net.index) == np.arange(len(net)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(net) - 1))
         if not np.all(net.index == np.arange(len(net))):
-- 
2.43.0


From 6c783d2d6805e5be22135bc6512d60d12096f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 2/9] fix: recognise every infinite modulus in Settings, not
 only the np.inf object

---
 src/fibermat/widgets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 9a9752a..52f8ca8 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -44,9 +44,9 @@ class Settings(dict):
         self.size = ipywidgets.FloatText(value=size, step=10.0, description="SIZE")
         self.theta = ipywidgets.FloatSlider(value=theta, min=0.0, max=1.0, step=0.01, readout_format=".1%", description="THETA")
         self.shear = ipywidgets.FloatText(value=(shear if shear != np.inf else 1.0), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.shear.switch = ipywidgets.Checkbox(value=not (shear is np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
+        self.shear.switch = ipywidgets.Checkbox(value=not (shear == np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
         self.tensile = ipywidgets.FloatText(value=(tensile if tensile  != np.inf else shear * (length / thickness) ** 2), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile is np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
+        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile == np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
         self.seed = ipywidgets.IntText(value=(seed if seed is not None else 0), layout=ipywidgets.Layout(width='100px'))
         self.seed.switch = ipywidgets.Checkbox(value=not (seed is None), description="SEED", layout=ipywidgets.Layout(width='196px'))
 
@@ -190,9 +190,9 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value is np.inf
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
-            if value is not np.inf:
+            if value != np.inf:
                 self.__getattribute__(name).value = value
         elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
             self.__getattribute__(name).switch.value = (False if value is None
-- 
2.43.0


From 2ef91703f48870c9436a11943aa1641d68279c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 3/9] fix: return the value of a single-value history instead
 of NaN in Interpolate

---
 src/fibermat/interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 2d1ae5e..dd950a1 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -58,6 +58,8 @@ class Interpolate(interp1d):
 
         """
         t = np.linspace(0, 1, len(y))
+        if len(y) == 1:
+            kwargs["kind"] = 'previous'  # : a single value is constant
         f = interp1d(t, y, axis=0,
                      bounds_error=False, fill_value=y[-1], **kwargs)
         if size is not None:
-- 
2.43.0


From 884afc52116410075931bc3fb701b82ead8d9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 4/9] fix: build and orient VTK fibers with current PyVista
 (ascending radii, no pv.translate)

---
 src/fibermat/render.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 01ef7d2..4a82569 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -71,9 +71,13 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     """
     # Create the VTK mesh (cylindrical structured grid)
-    msh = pv.CylinderStructured(radius=np.linspace(0.5, 0, r_resolution + 1),
+    # (positive ascending radii are required, then corrected from 0.5 to 0)
+    radius = np.arange(1, r_resolution + 2)
+    msh = pv.CylinderStructured(radius=radius,
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
+    ratio = np.linspace(0.5, 0, r_resolution + 1) / radius
+    msh.points[:, 1:] *= np.resize(ratio, (len(msh.points), 1))
 
     l, b, h = length, width, thickness
 
@@ -88,9 +92,11 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     # Transform the mesh (scale, rotate, and translate)
     msh.scale([l, b, h], inplace=True)
-    pv.translate(msh,
-                 center=(x, y, z),
-                 direction=(u, v, w))
+    e1 = np.array([u, v, w]) / np.linalg.norm([u, v, w])
+    e3 = np.cross(e1, [0, 1, 0] if abs(e1[1]) < 1 else [-e1[1], 0, 0])
+    e3 /= np.linalg.norm(e3)
+    e2 = np.cross(e3, e1)
+    msh.points = msh.points @ np.array([e1, e2, e3]) + np.array([x, y, z])
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 2ba95fdd5876197bddf599a6b92d2bb1669b807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 5/9] fix: pass the fiber mesh options of vtk_mesh on to
 vtk_fiber

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 4a82569..f882b4a 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -241,7 +241,7 @@ def vtk_mesh(mat=None, mesh=None,
         msh["node"] = j
 
     # Create a VTK mesh with interpolation dataZ
-    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose)
+    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose, **kwargs)
 
     if len(mat):
         # Interpolate fields
-- 
2.43.0


From 1b1bbcc773129d89b2cf7623a6be49079b999cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 6/9] fix: stack on the mat's own network when no network is
 given

---
 src/fibermat/net.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 2beede9..9ba0daf 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -561,7 +561,7 @@ class Stack(Net):
         if mat is None:
             mat = Mat()
         if net is None:
-            net = Net()
+            net = Net(mat)
 
         assert Mat.check(mat)
         assert Net.check(net)
@@ -687,7 +687,7 @@ class Stack(Net):
         if mat is None:
             mat = Mat()
         if net is None:
-            net = Net()
+            net = Net(mat)
 
         assert Mat.check(mat)
         assert Net.check(net)
@@ -743,7 +743,7 @@ class Stack(Net):
         if mat is None:
             mat = Mat()
         if net is None:
-            net = Net()
+            net = Net(mat)
 
         assert Mat.check(mat)
         assert Net.check(net)
-- 
2.43.0


From cf05aafc5546149a319f1bb1c1baf686b0e63343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 7/9] fix: assemble empty systems for empty meshes in stiffness
 and constraint

---
 src/fibermat/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index 6e4cae5..52e2745 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -132,11 +132,12 @@ def stiffness(mat, mesh, lmin=None, lmax=None, coupling=1.0, **kwargs):
     # Get material data
     fiber = mat.loc[fiber]
     l = mesh.s.loc[j].values - mesh.s.loc[i].values
-    if lmin is None:
-        lmin = np.min(l)
-    if lmax is None:
-        lmax = np.max(l)
-    l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
+    if len(l):
+        if lmin is None:
+            lmin = np.min(l)
+        if lmax is None:
+            lmax = np.max(l)
+        l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
 
     # Timoshenko number : Ψ² = E / G * (h / l) ^ 2
     k0 = np.pi / 4 * fiber[[*"Gbh"]].prod(axis=1).values / l
@@ -268,7 +269,7 @@ def constraint(mat, mesh, **kwargs):
     zj = mesh.z.loc[j].values
     hi = mesh.h.loc[i].values
     hj = mesh.h.loc[j].values
-    Z = (mesh.z.values + 0.5 * mesh.h.values).max()  # : upper boundary position
+    Z = (mesh.z.values + 0.5 * mesh.h.values).max(initial=-np.inf)  # : upper boundary position
     i *= 2
     j *= 2
     k *= 3
-- 
2.43.0


From b46fb38b0f56b5ef4256bed8f14cb0007687aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 8/9] fix: keep VTK fibers within their dimensions for every
 angular resolution

---
 src/fibermat/render.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index f882b4a..3c73ca8 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -71,13 +71,12 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     """
     # Create the VTK mesh (cylindrical structured grid)
-    # (positive ascending radii are required, then corrected from 0.5 to 0)
-    radius = np.arange(1, r_resolution + 2)
+    # (positive ascending radii are required)
+    radius = np.linspace(0, 0.5, r_resolution + 1)
+    radius[0] = np.finfo(float).eps
     msh = pv.CylinderStructured(radius=radius,
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
-    ratio = np.linspace(0.5, 0, r_resolution + 1) / radius
-    msh.points[:, 1:] *= np.resize(ratio, (len(msh.points), 1))
 
     l, b, h = length, width, thickness
 
-- 
2.43.0


From 9c37f7a0c4ed3037f9c408aece0fa53ee7de100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 9/9] fix: do not truncate rounding errors of integer and
 boolean histories in Interpolate

---
 src/fibermat/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index dd950a1..ee8af94 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -88,7 +88,10 @@ class Interpolate(interp1d):
         """
         if t is None:
             t = self.t
-        return super().__call__(t).astype(self.dtype)
+        y = super().__call__(t)
+        if not np.issubdtype(self.dtype, np.inexact):
+            y = np.round(y, 9)  # : undo rounding errors before truncation
+        return y.astype(self.dtype)
 
 
 ################################################################################
-- 
2.43.0

