From 518738dbbaf31a2bb6a47791c7d7307fe0dadf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 01/11] fix: build VTK fibers with strictly positive ascending
 radii and an explicit fiber frame

pyvista.CylinderStructured rejects a zero or descending radius and
pyvista.translate no longer exists, so vtk_fiber raised for every input.
---
 src/fibermat/render.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 01ef7d2..58e117b 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -71,7 +71,10 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     """
     # Create the VTK mesh (cylindrical structured grid)
-    msh = pv.CylinderStructured(radius=np.linspace(0.5, 0, r_resolution + 1),
+    # NB: `pyvista` requires strictly positive radii in ascending order
+    radius = np.linspace(0, 0.5, r_resolution + 1)
+    radius[0] = np.finfo(float).tiny
+    msh = pv.CylinderStructured(radius=radius,
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
 
@@ -88,9 +91,14 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     # Transform the mesh (scale, rotate, and translate)
     msh.scale([l, b, h], inplace=True)
-    pv.translate(msh,
-                 center=(x, y, z),
-                 direction=(u, v, w))
+    # Directions of fiber length, width (horizontal) and thickness
+    e1 = np.array([u, v, w]) / np.linalg.norm([u, v, w])
+    e2 = np.array([-v, u, 0.]) if (u or v) else np.array([0., 1., 0.])
+    e2 /= np.linalg.norm(e2)
+    e3 = np.cross(e1, e2)
+    matrix = np.eye(4)
+    matrix[:3] = np.c_[e1, e2, e3, [x, y, z]]
+    msh.transform(matrix, inplace=True)
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 24bae5ca3e960b04ae8307a49b1ac9ca21e303a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 02/11] fix: Interpolate returns constant values unchanged

A single state (e.g. the results of solve() when no step is taken) and
constant infinite values (upper bounds of end nodes) were interpolated as nan.
---
 src/fibermat/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 2d1ae5e..45b44e1 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -68,6 +68,9 @@ class Interpolate(interp1d):
         # Set attributes
         self.t = t
         self.dtype = np.array(y).dtype
+        # Constant values (single state or infinite bounds) are not interpolated
+        self.value = np.array(y[0])
+        self.constant = np.all(np.array(y) == self.value, axis=0)
 
     def __call__(self, t=None):
         """
@@ -86,7 +89,8 @@ class Interpolate(interp1d):
         """
         if t is None:
             t = self.t
-        return super().__call__(t).astype(self.dtype)
+        y = np.where(self.constant, self.value, super().__call__(t))
+        return y.astype(self.dtype)
 
 
 ################################################################################
-- 
2.43.0


From 526b162ea98268cdc64b39c8463c788e1c6d89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 03/11] fix: Net and Mesh raise IndexError for repeated row
 labels

As documented and as Mat does; comparing arrays of different lengths
raised a broadcasting ValueError instead.
---
 src/fibermat/mesh.py | 3 ++-
 src/fibermat/net.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index cda9c09..63adb98 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -277,7 +277,8 @@ class Mesh(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(mesh.index) == np.arange(len(mesh))):
+        if (len(np.unique(mesh.index)) != len(mesh)
+                or not np.all(np.unique(mesh.index) == np.arange(len(mesh)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(mesh) - 1))
         if not np.all(mesh.index == np.arange(len(mesh))):
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index ee92e20..2beede9 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -353,7 +353,8 @@ class Net(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(net.index) == np.arange(len(net))):
+        if (len(np.unique(net.index)) != len(net)
+                or not np.all(np.unique(net.index) == np.arange(len(net)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(net) - 1))
         if not np.all(net.index == np.arange(len(net))):
-- 
2.43.0


From b4c18fdd182e07c50e79ce94dfae1aa896dbde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 04/11] fix: solve() stops at the last state when the linear
 system is singular

With infinitely rigid fibers (the default) the factorization of a jammed
packing raises RuntimeError, which discarded all the computed states.
---
 src/fibermat/solver.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 6e501c9..40a4977 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -143,12 +143,19 @@ def solve(mat, mesh, packing=1., itermax=1000,
             mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
             # Solve linear problem
             # dx[mask] += np.real(solve(P[np.ix_(mask, mask)], dq[mask]))
-            dx[perm[mask[perm]]] = np.real(
-                solve(
-                    P[np.ix_(perm[mask[perm]], perm[mask[perm]])],
-                    dq[perm[mask[perm]]]
+            try:
+                dx[perm[mask[perm]]] = np.real(
+                    solve(
+                        P[np.ix_(perm[mask[perm]], perm[mask[perm]])],
+                        dq[perm[mask[perm]]]
+                    )
                 )
-            )
+            except RuntimeError as e:
+                # Singular system: packing cannot be increased any further
+                if verbose:
+                    warnings.warn("Stopping criteria: {}".format(e),
+                                  UserWarning)
+                break
             # Calculate error
             err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])
             # Calculate evolution
-- 
2.43.0


From 85d23db5c78e8e85fe3a2eaa19daa0e864fa61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 05/11] fix: Settings recognises any infinite modulus

Infinity was tested by identity (is np.inf), so float('inf') or a numpy
infinity switched the modulus on and returned a finite value.
---
 src/fibermat/widgets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 9a9752a..fd9cb7e 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -44,9 +44,9 @@ class Settings(dict):
         self.size = ipywidgets.FloatText(value=size, step=10.0, description="SIZE")
         self.theta = ipywidgets.FloatSlider(value=theta, min=0.0, max=1.0, step=0.01, readout_format=".1%", description="THETA")
         self.shear = ipywidgets.FloatText(value=(shear if shear != np.inf else 1.0), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.shear.switch = ipywidgets.Checkbox(value=not (shear is np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
+        self.shear.switch = ipywidgets.Checkbox(value=bool(shear != np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
         self.tensile = ipywidgets.FloatText(value=(tensile if tensile  != np.inf else shear * (length / thickness) ** 2), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile is np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
+        self.tensile.switch = ipywidgets.Checkbox(value=bool(tensile != np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
         self.seed = ipywidgets.IntText(value=(seed if seed is not None else 0), layout=ipywidgets.Layout(width='100px'))
         self.seed.switch = ipywidgets.Checkbox(value=not (seed is None), description="SEED", layout=ipywidgets.Layout(width='196px'))
 
@@ -190,9 +190,9 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value is np.inf
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
-            if value is not np.inf:
+            if value != np.inf:
                 self.__getattribute__(name).value = value
         elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
             self.__getattribute__(name).switch.value = (False if value is None
-- 
2.43.0


From 07d2d72eff326dbfe23f28277cc315a6efa7a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 06/11] fix: vtk_mesh interpolates along the fiber abscissa

The Hermite spline was parametrised by node labels whereas its slopes are
rotations (rad): rigid tilts looked wavy, and the exported rotation and
curvature fields were not in rad and 1 / mm.
---
 src/fibermat/render.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 58e117b..187fcae 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -247,8 +247,11 @@ def vtk_mesh(mat=None, mesh=None,
 
     if len(mat):
         # Interpolate fields
-        s = np.arange(len(mesh))
-        x = msh["node"]
+        # NB: slopes are given in rad (mm / mm), so nodes are located by their
+        #     cumulative abscissa along fibers (fibers being put end to end)
+        ds = np.diff(mesh.s.values)
+        s = np.cumsum(np.r_[0, np.where(ds > 0, ds, 1)])
+        x = np.interp(msh["node"], np.arange(len(mesh)), s)
         if displacement is not None:
             if rotation is None:
                 rotation = 0 * displacement
-- 
2.43.0


From a5c205da37ec81644740b46b903556f46eea6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 07/11] fix: vtk_mesh passes the resolution options on to the
 fibers

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 187fcae..6c23f5e 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -243,7 +243,7 @@ def vtk_mesh(mat=None, mesh=None,
         msh["node"] = j
 
     # Create a VTK mesh with interpolation dataZ
-    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose)
+    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose, **kwargs)
 
     if len(mat):
         # Interpolate fields
-- 
2.43.0


From cba30d49cad83f7b69a9896a5d366ecf661e35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 08/11] fix: Interpolate rounds integer and boolean states
 instead of truncating them

---
 src/fibermat/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 45b44e1..3642ba3 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -90,6 +90,9 @@ class Interpolate(interp1d):
         if t is None:
             t = self.t
         y = np.where(self.constant, self.value, super().__call__(t))
+        if not np.issubdtype(self.dtype, np.inexact):
+            # Integers and booleans are rounded, not truncated
+            y = np.rint(y.astype(float))
         return y.astype(self.dtype)
 
 
-- 
2.43.0


From c393054830e24be135f57c07b8d4c0078948014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 09/11] fix: periodic export keeps fiber labels and moduli at
 cut points

VTK truncates interpolated integers, so that points created by clipping could
get the label of another fiber, and infinite moduli were interpolated as NaN.
---
 src/fibermat/render.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 6c23f5e..11a96b2 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -271,6 +271,8 @@ def vtk_mesh(mat=None, mesh=None,
     if len(mat) and mesh.attrs["periodic"]:
         X = Y = mat.attrs["size"]
         Z1, Z2 = np.min(msh.points), np.max(msh.points)
+        # Labels are clipped as real numbers (VTK truncates interpolated integers)
+        msh["fiber"] = msh["fiber"].astype(float)
         # Duplicate mesh for periodic conditions
         msh = pv.MultiBlock([
             msh,
@@ -283,6 +285,9 @@ def vtk_mesh(mat=None, mesh=None,
             msh.copy().translate([X, -Y, 0]),
             msh.copy().translate([X, Y, 0]),
         ]).combine().clip_box([-X, X, -Y, Y, Z1, Z2], invert=False)
+        msh["fiber"] = np.rint(msh["fiber"]).astype(int)
+        # Infinite moduli can not be interpolated
+        msh["E"] = mat.E.values[msh["fiber"]].astype(float)
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 709c74ebf392a109c99f64b551f08c9f2508e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 10/11] fix: never drop equilibrium equations because of the
 contact tolerance

---
 src/fibermat/model.py  | 4 +++-
 src/fibermat/solver.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index 6e4cae5..e3dd0dd 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -377,7 +377,9 @@ def plot_system(K, u, F, du, dF, C, f, H, df, dH,
            label="inactive")
     ax.legend()
 
-    mask = (np.real(q - P @ x) <= tol)
+    r = np.real(q - P @ x)
+    # Equilibrium equations are always active, except for rigid rotations (not finite)
+    mask = np.where(np.arange(len(r)) < K.shape[0], np.isfinite(r), r <= tol)
     mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
 
     # Solve linear problem
diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 40a4977..ffee1ce 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -128,7 +128,9 @@ def solve(mat, mesh, packing=1., itermax=1000,
     H_ = [H.copy()]
     Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]
     rlambda_ = [1.0]
-    mask_ = [(np.real(q - P @ x) <= tol)]
+    r = np.real(q - P @ x)
+    # Equilibrium equations are always active, except for rigid rotations (not finite)
+    mask_ = [np.where(np.arange(len(r)) < K.shape[0], np.isfinite(r), r <= tol)]
     err_ = [0]
 
     # Incremental solver
@@ -139,7 +141,8 @@ def solve(mat, mesh, packing=1., itermax=1000,
             # Solve step
             dx *= 0
             # mask = [True] * K.shape[0] + [*(C @ u >= H - tol)]
-            mask = (np.real(q - P @ x) <= tol)
+            r = np.real(q - P @ x)
+            mask = np.where(np.arange(len(r)) < K.shape[0], np.isfinite(r), r <= tol)
             mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
             # Solve linear problem
             # dx[mask] += np.real(solve(P[np.ix_(mask, mask)], dq[mask]))
-- 
2.43.0


From 1035d1f4eed90c749dd17b67137a7553c01533df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:29 +0000
Subject: [PATCH 11/11] fix: a stack keeps the connections of the network it is
 given

Stack.init rebuilt the network of all pairs of fibers after stacking, so that
connections the given network does not have (candidate pairs, thresholded stacks)
came back, between fibers that the stacking problem did not separate.
---
 src/fibermat/net.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 2beede9..7628e93 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -572,8 +572,15 @@ class Stack(Net):
         if linsol:
             # Update DataFrames
             mat.z = linsol.x
+            pairs = pd.MultiIndex.from_frame(net[[*"AB"]])
             net = Net(mat, **net.attrs)
 
+            # Keep the connections of the given network (and fiber ends)
+            mask = pd.MultiIndex.from_frame(net[[*"AB"]]).isin(pairs)
+            mask |= (net.A.values == net.B.values)
+            net = net[mask]
+            net.reset_index(drop=True, inplace=True)
+
             # Remove nodes based on threshold distances between nodes
             mask = np.zeros(len(net))
             # : 0 if removed node
-- 
2.43.0

