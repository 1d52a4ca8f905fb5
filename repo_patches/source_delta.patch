From f9d3edb235e4de18b5fe005098298297ab4e89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 01/15] fix: pass precomputed data of triangular elements under
 its parameter name

---
 .../mesh/elements/coordinate_transformation/helpers/cache.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py b/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
index 9968125..8a1f7ae 100644
--- a/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
+++ b/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
@@ -80,7 +80,7 @@ class miUsTriangle_Elements_CT_Cache(FrozenOnly):
                     data = getattr(element.coordinate_transformation, self._method_)(self._xi_, self._et_)
                 else:
                     data = getattr(element.coordinate_transformation, self._method_)(
-                        self._xi_, self._et_, item = self._itmD_[item]
+                        self._xi_, self._et_, itmD=self._itmD_[item]
                     )
                 self._cache_[cKey] = data
                 return data
-- 
2.43.0


From 0361e444124cfb0e30a508e26c506e031943113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:17 +0000
Subject: [PATCH 02/15] fix: dipole velocity follows the sign of the monopole
 strengths

---
 .../incompressibleNavierStokes/dipole_collision.py       | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/objects/CSCG/_2d/exactSolutions/incompressibleNavierStokes/dipole_collision.py b/objects/CSCG/_2d/exactSolutions/incompressibleNavierStokes/dipole_collision.py
index a87ebe1..5c4a18f 100644
--- a/objects/CSCG/_2d/exactSolutions/incompressibleNavierStokes/dipole_collision.py
+++ b/objects/CSCG/_2d/exactSolutions/incompressibleNavierStokes/dipole_collision.py
@@ -65,7 +65,6 @@ class DipoleCollision(incompressibleNavierStokesBase, ABC):
         self._we1_ = we1
         self._we2_ = we2
         assert we1 + we2 == 0
-        self._abs_we_ = abs(we1)
 
         quad_nodes, quad_weights = Quadrature([99, 99], category='Gauss').quad
         quad_nodes = np.meshgrid(*quad_nodes, indexing='ij')
@@ -137,8 +136,8 @@ class DipoleCollision(incompressibleNavierStokesBase, ABC):
         r1_square = (x - x1) ** 2 + (y - y1) ** 2
         r2_square = (x - x2) ** 2 + (y - y2) ** 2
 
-        term1 = -0.5 * self._abs_we_ * (y - y1) * np.exp(- r1_square / self._r0_square_)
-        term2 = 0.5 * self._abs_we_ * (y - y2) * np.exp(- r2_square / self._r0_square_)
+        term1 = -0.5 * self._we1_ * (y - y1) * np.exp(- r1_square / self._r0_square_)
+        term2 = -0.5 * self._we2_ * (y - y2) * np.exp(- r2_square / self._r0_square_)
 
         return term1 + term2
 
@@ -154,8 +153,8 @@ class DipoleCollision(incompressibleNavierStokesBase, ABC):
         r1_square = (x - x1) ** 2 + (y - y1) ** 2
         r2_square = (x - x2) ** 2 + (y - y2) ** 2
 
-        term1 = 0.5 * self._abs_we_ * (x - x1) * np.exp(- r1_square / self._r0_square_)
-        term2 = -0.5 * self._abs_we_ * (x - x2) * np.exp(- r2_square / self._r0_square_)
+        term1 = 0.5 * self._we1_ * (x - x1) * np.exp(- r1_square / self._r0_square_)
+        term2 = 0.5 * self._we2_ * (x - x2) * np.exp(- r2_square / self._r0_square_)
 
         return term1 + term2
 
-- 
2.43.0


From 37720dd7db14b6006d25237bf42679341764a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:11 +0000
Subject: [PATCH 03/15] fix: inner product of two triangular vector fields is a
 scalar

---
 .../triangular/fields/vector/do/inner_product.py  | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/objects/miUsGrid/triangular/fields/vector/do/inner_product.py b/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
index 3f6005a..76a76fb 100644
--- a/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
+++ b/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
@@ -9,7 +9,7 @@ import sys
 if './' not in sys.path: sys.path.append('./')
 from components.freeze.main import FrozenOnly
 
-from objects.CSCG._2d.fields.scalar.do.cross_product.helpers.helper2 import ___SF_CROSS_PRODUCT_HELPER_2___
+from objects.CSCG._2d.fields.vector.do.inner_product.helpers.helper import VF2_IP_H
 
 from importlib import import_module
 
@@ -25,24 +25,23 @@ class miUsTriangle_VectorField_InnerProduct(FrozenOnly):
                 if vector.ftype == 'standard':
                     u, v = self._vf_.func
                     a, b = vector.func
-                    IP1 = ___SF_CROSS_PRODUCT_HELPER_2___(u, a)
-                    IP2 = ___SF_CROSS_PRODUCT_HELPER_2___(v, b)
+                    IP = VF2_IP_H(u, v, a, b)
 
                     base_path = '.'.join(str(self.__class__).split(' ')[1][1:-2].split('.')[:-4]) + '.'
 
-                    vector_class = getattr(import_module(base_path + 'vector.main'),
-                                           'miUsGrid_Triangular_Vector')
+                    scalar_class = getattr(import_module(base_path + 'scalar.main'),
+                                           'miUsGrid_Triangular_Scalar')
 
-                    Ip_vector = vector_class(
+                    ip_scalar = scalar_class(
                         self._vf_.mesh,
-                        [IP1, IP2],
+                        IP,
                         ftype='standard',
                         valid_time=self._vf_.valid_time,
                         name =self._vf_.standard_properties.name
                               + '--inner-product--'
                               + vector.standard_properties.name
                     )
-                    return Ip_vector
+                    return ip_scalar
                 else:
                     raise NotImplementedError(
                         f"a standard miUsGrid_Triangular_Vector cannot do inner product with "
-- 
2.43.0


From 3234b85c728232954b81013c5b64996be97ab64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 04/15] fix: cross-product caches hold their forms, ids of dead
 forms may be reused

---
 .../_2s/special/helpers/cross_product_2__ip_1.py      | 11 +++++++----
 .../_2s/special/helpers/inner_curl_cross_2f2f.py      | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
index 9936072..c1d0a88 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
@@ -17,7 +17,8 @@ from components.freeze.base import FrozenOnly
 from tools.elementwiseCache.dataStructures.objects.multiDimMatrix.main import MultiDimMatrix
 
 _global_cache = {
-    'key': '',
+    'forms': (None, None, None),  # hold the forms: the id of a dead form may be reused.
+    'quad_degree': None,
     'data': dict(),
 }
 
@@ -39,9 +40,10 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_1___(FrozenOnly):
         assert u.mesh == B.mesh, "___3dCSCG_2Form_CrossProduct_2__ip_1___, Meshes do not match."
         assert j.mesh == B.mesh, "___3dCSCG_2Form_CrossProduct_2__ip_1___, Meshes do not match."
 
-        key = "{}{}{}{}".format(id(u), id(B), id(j), quad_degree)
+        forms, key = (u, B, j), quad_degree
 
-        if key == _global_cache['key']:
+        if all(_ is __ for _, __ in zip(forms, _global_cache['forms'])) and \
+                key == _global_cache['quad_degree']:
             CP_IP_3dM = _global_cache['data']
         else:
 
@@ -103,7 +105,8 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_1___(FrozenOnly):
 
                     CP_IP_3dM[i] = Aa + Bb + Cc
 
-            _global_cache['key'] = key
+            _global_cache['forms'] = forms
+            _global_cache['quad_degree'] = key
             _global_cache['data'] = CP_IP_3dM
 
         self._CP_IP_3dM_ = CP_IP_3dM
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
index d1a6755..b39c1ac 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
@@ -12,7 +12,8 @@ from importlib import import_module
 from scipy.sparse import csc_matrix, bmat, csr_matrix
 
 _global_cache = {
-    'key': '',
+    'forms': (None, None, None),  # hold the forms: the id of a dead form may be reused.
+    'quad_degree': None,
     'data': dict(),
 }
 
@@ -27,8 +28,9 @@ class _InnerCurlCrossProduct_2f2f(FrozenOnly):
         assert u2.mesh == B2.mesh, "_InnerCurlCrossProduct_2f2f: Meshes do not match."
         assert u2.mesh == b2.mesh, "_InnerCurlCrossProduct_2f2f: Meshes do not match."
 
-        key = "{}{}{}{}".format(id(u2), id(B2), id(b2), quad_degree)
-        if key == _global_cache['key']:
+        forms, key = (u2, B2, b2), quad_degree
+        if all(_ is __ for _, __ in zip(forms, _global_cache['forms'])) and \
+                key == _global_cache['quad_degree']:
             _3dM = _global_cache['data']
 
         else:
@@ -96,7 +98,8 @@ class _InnerCurlCrossProduct_2f2f(FrozenOnly):
                 else:
                     raise NotImplementedError()
 
-            _global_cache['key'] = key
+            _global_cache['forms'] = forms
+            _global_cache['quad_degree'] = key
             _global_cache['data'] = _3dM
 
         self._3dM = _3dM
-- 
2.43.0


From 3a13b51bf4efb1d39843fd4cfcd0c59203981ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 05/15] fix: 1-form cross product, '2-M-0' contracts the
 cochain of the 1-form it crosses

---
 .../forms/standard/_1s/special/helpers/cross_product_1__ip_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 7d7e65a..48361e4 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -114,7 +114,7 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
 
     def _2_M_0_(self, i):
         """return 2d matrix of output = '2-M-1' type for mesh-element #i."""
-        M = np.einsum('ijk, i -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
+        M = np.einsum('ijk, j -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
         return csr_matrix(M)
 
     #     """
-- 
2.43.0


From 95f176fae18398fabe1b5f145666194ff5732646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 06/15] fix: cross-product quadrature takes the Jacobian at the
 points of the reconstruction matrices

---
 .../standard/_1s/special/helpers/cross_product_1__ip_1.py   | 6 +++---
 .../standard/_1s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_1__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_1.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../_2s/special/helpers/cross_product_2__ip_2_2M0.py        | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 48361e4..c33c4db 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -54,9 +54,9 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
         RMe = e1.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
index 2ecd3d4..6c3590e 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
@@ -52,9 +52,9 @@ class ___3dCSCG_1Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
index e135ccc..892e907 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_1__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
index c1d0a88..f1d4d79 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
@@ -58,9 +58,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_1___(FrozenOnly):
             RMe = j.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = u.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
index 685222b..a91bf33 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
index 40a5ec7..a44e63c 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
@@ -48,9 +48,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2_2M0___(FrozenOnly):
             RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
-- 
2.43.0


From 5b30f248325cf581f83faba3e83d1a0cf8fa8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 07/15] fix: 3d compute_L2_energy_with of forms of different
 spaces

---
 objects/CSCG/_3d/forms/standard/base/do.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/do.py b/objects/CSCG/_3d/forms/standard/base/do.py
index d0a788b..bf5fc51 100644
--- a/objects/CSCG/_3d/forms/standard/base/do.py
+++ b/objects/CSCG/_3d/forms/standard/base/do.py
@@ -35,13 +35,13 @@ class _3dCSCG_Standard_Form_DO(FrozenOnly):
             repM = M[i].toarray() # representative Mass matrix
             LOCAL = np.einsum('ij, ki, kj -> ',
                               repM,
-                              self._sf_.cochain.array,
                               other.cochain.array,
+                              self._sf_.cochain.array,
                               optimize='greedy')
         else:
             LOCAL = list()
             for i in self._sf_.mesh.elements:
-                LOCAL.append(self._sf_.cochain.local[i] @ M[i] @ other.cochain.local[i])
+                LOCAL.append(other.cochain.local[i] @ M[i] @ self._sf_.cochain.local[i])
             LOCAL = np.sum(LOCAL)
 
         return COMM.allreduce(LOCAL, op=MPI.SUM)
-- 
2.43.0


From c705f47571f011e4d36ffe861dcd3f248ec57e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 08/15] fix: cache key of the sum or difference of two EWC
 vectors is made of both operands

---
 .../dataStructures/objects/columnVector/helpers/add.py          | 2 +-
 .../dataStructures/objects/columnVector/helpers/sub.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index f34ec64..8d66937 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -14,4 +14,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 582eaaf..40e4875 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -14,4 +14,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
-- 
2.43.0


From f4732b95adb1d9b496ef46f4c9488c52a2f23b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 09/15] fix: EWC_ColumnVector takes an iR_Gathering_Matrix as
 its gathering matrix

---
 .../dataStructures/objects/columnVector/main.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
index f4229da..9232b01 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
@@ -227,7 +227,7 @@ class EWC_ColumnVector(FrozenOnly):
 
             cgm0 = list()
             for _ in gathering_matrix:
-                if _.__class__.__name__ in ('Gathering_Matrix', 'iR_Gathering_Matrix,'):
+                if _.__class__.__name__ in ('Gathering_Matrix', 'iR_Gathering_Matrix'):
                     cgm0.append(_)
                 else:
                     if hasattr(_, '___IS_ADF___') and _.___IS_ADF___:
-- 
2.43.0


From 4f259910f2052391d6119098d6c6f25ed058715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:46 +0000
Subject: [PATCH 10/15] fix: results of operators on customized EWC objects are
 not cached by the keys of the uncustomized ones

---
 .../columnVector/helpers/___PRIVATE_sum___.py    |  2 +-
 .../objects/columnVector/helpers/add.py          |  2 +-
 .../objects/columnVector/helpers/sub.py          |  2 +-
 .../dataStructures/objects/columnVector/main.py  | 10 +++++++---
 .../objects/sparseMatrix/helpers/Psum.py         |  2 +-
 .../objects/sparseMatrix/helpers/add.py          |  2 +-
 .../objects/sparseMatrix/helpers/matmul.py       |  2 +-
 .../objects/sparseMatrix/helpers/sub.py          |  2 +-
 .../objects/sparseMatrix/helpers/vecmul.py       |  2 +-
 .../dataStructures/objects/sparseMatrix/main.py  | 16 ++++++++++------
 10 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
index a381481..9e1e0cc 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
@@ -25,5 +25,5 @@ class ColVec_PRIVATE_sum(FrozenOnly):
         """"""
         KEY = list()
         for v in self._cv_:
-            KEY.append(v._KG_(basic_unit))
+            KEY.append(v.___PRIVATE_operand_cache_key_generator___(basic_unit))
         return ''.join(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index 8d66937..d5cffe4 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -14,4 +14,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return self._v1_.___PRIVATE_operand_cache_key_generator___(i) + self._v2_.___PRIVATE_operand_cache_key_generator___(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 40e4875..1e62268 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -14,4 +14,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return self._v1_.___PRIVATE_operand_cache_key_generator___(i) + self._v2_.___PRIVATE_operand_cache_key_generator___(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
index 9232b01..560cd9f 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
@@ -204,6 +204,10 @@ class EWC_ColumnVector(FrozenOnly):
         assert i in self.elements
         return self.___NC___
 
+    def ___PRIVATE_operand_cache_key_generator___(self, i):
+        """The cache key of self[i]. `_KG_` does not know the customizations; so once customized, no cache."""
+        return self._KG_(i) if self.customizations == dict() else self.___NC___
+
     def ___PRIVATE_dict_2_method_data_generator___(self, i):
         """When we get a dict as the data generator, we make wrap it with a method."""
         return self.___dict_DG___[i]
@@ -375,7 +379,7 @@ class EWC_ColumnVector(FrozenOnly):
         """- EWC_ColumnVector"""
         data_generator = ___CV_NEG___(self)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, data_generator, self.___PRIVATE_operand_cache_key_generator___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
@@ -384,7 +388,7 @@ class EWC_ColumnVector(FrozenOnly):
         """"""
         DG = ColVec_MUL(self, other)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, DG, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_operand_cache_key_generator___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
@@ -393,7 +397,7 @@ class EWC_ColumnVector(FrozenOnly):
         """"""
         DG = ColVec_MUL(self, other)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, DG, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_operand_cache_key_generator___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
index 8a59fc1..db88d4b 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
@@ -24,5 +24,5 @@ class SpaMat_PRIVATE_sum(FrozenOnly):
         """"""
         KEY = list()
         for v in self._Ms_:
-            KEY.append(v._KG_(basic_unit))
+            KEY.append(v.___PRIVATE_operand_cache_key_generator___(basic_unit))
         return ''.join(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
index 8c5dcc6..fb8054f 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
@@ -12,4 +12,4 @@ class ___ADD___(FrozenOnly):
         return self._ewc1_[item] + self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return self._ewc1_.___PRIVATE_operand_cache_key_generator___(item) + self._ewc2_.___PRIVATE_operand_cache_key_generator___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
index 47bf42c..74d3041 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
@@ -13,4 +13,4 @@ class ___MATMUL___(FrozenOnly):
         return self._ewc1_[item] @ self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return self._ewc1_.___PRIVATE_operand_cache_key_generator___(item) + self._ewc2_.___PRIVATE_operand_cache_key_generator___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
index bd48478..26669ca 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
@@ -13,4 +13,4 @@ class ___SUB___(FrozenOnly):
         return self._ewc1_[item] - self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return self._ewc1_.___PRIVATE_operand_cache_key_generator___(item) + self._ewc2_.___PRIVATE_operand_cache_key_generator___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
index 5153e84..759d8c5 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
@@ -13,4 +13,4 @@ class ___VECMUL___(FrozenOnly):
         return self._ewc_S_[item] @ self._ewc_V_[item]
 
     def __KG_call__(self, item):
-        return self._ewc_S_._KG_(item) + self._ewc_V_._KG_(item)
+        return self._ewc_S_.___PRIVATE_operand_cache_key_generator___(item) + self._ewc_V_.___PRIVATE_operand_cache_key_generator___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
index f07731c..859d103 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
@@ -246,6 +246,10 @@ class EWC_SparseMatrix(FrozenOnly):
     def ___PRIVATE_no_cache_key_generator___(self, i):
         return self.___NC___
 
+    def ___PRIVATE_operand_cache_key_generator___(self, i):
+        """The cache key of self[i]. `_KG_` does not know the customizations; so once customized, no cache."""
+        return self._KG_(i) if self.customizations == dict() else self.___NC___
+
     def ___PRIVATE_dict_2_method_data_generator___(self, i):
         """When we get a dict as the data generator, we make wrap it with a method."""
         return self.___dict_DG___[i]
@@ -473,7 +477,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___MUL___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_operand_cache_key_generator___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -487,7 +491,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___MUL___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_operand_cache_key_generator___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -500,7 +504,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___TRUE_DIV___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_operand_cache_key_generator___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -514,7 +518,7 @@ class EWC_SparseMatrix(FrozenOnly):
     def __neg__(self):
         """- EWC_SparseMatrix"""
         data_generator = ___NEG___(self)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_operand_cache_key_generator___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -546,7 +550,7 @@ class EWC_SparseMatrix(FrozenOnly):
     def T(self):
         """Transpose of self."""
         data_generator = ___TRANSPOSE___(self)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_operand_cache_key_generator___)
 
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = (self.gathering_matrices[1], self.gathering_matrices[0])
@@ -560,7 +564,7 @@ class EWC_SparseMatrix(FrozenOnly):
         Watch out, this could be very slow.
         """
         data_generator = ___LinearAlgebraINV___(self)
-        return EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        return EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_operand_cache_key_generator___)
 
     def ___PRIVATE_sum___(self, others):
         """self + all others."""
-- 
2.43.0


From 12aeaaaa3b68d77d70ed80ee54db93d6c2a967a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 11/15] fix: GlobalMatrix.nonempty_rows and nonempty_columns
 found no row (column) of a csr (csc) matrix

---
 tools/miLinearAlgebra/dataStructures/globalMatrix/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
index 1424685..1d9ae84 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
@@ -88,7 +88,7 @@ class GlobalMatrix(FrozenOnly):
         """The columns have non-zero."""
         if self.mtype == 'csc':
             _ = np.diff(self.M.indptr) != 0  # the columns have non-zero values.
-            hnzc = np.argwhere(_ is True).ravel()
+            hnzc = np.argwhere(_).ravel()
         elif self.mtype == 'csr':
             hnzc = self.M.indices
             hnzc = sorted(list(set(hnzc)))
@@ -101,7 +101,7 @@ class GlobalMatrix(FrozenOnly):
         """The rows have non-zero."""
         if self.mtype == 'csr':
             _ = np.diff(self.M.indptr) != 0  # the rows have non-zero values.
-            hnzr = np.argwhere(_ is True).ravel()
+            hnzr = np.argwhere(_).ravel()
         elif self.mtype == 'csc':
             hnzr = self.M.indices
             hnzr = sorted(list(set(hnzr)))
-- 
2.43.0


From 046c6aaeff7b4b3b4ef9cd1739b246597f1ca0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 12/15] fix: GlobalMatrix column-major check returns a bool

---
 tools/miLinearAlgebra/dataStructures/globalMatrix/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
index 1d9ae84..407a1f1 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
@@ -424,7 +424,7 @@ class GlobalMatrix(FrozenOnly):
         else:
             ToF = None
         ToF = COMM.bcast(ToF, root=MASTER_RANK)
-        return ToF,
+        return ToF
 
     def ___PRIVATE_self_regularity_checker___(self):
         """"""
-- 
2.43.0


From 7e2b362e2111fc6692000cf3d5b85ca660b20d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 13/15] fix: EWC_SparseMatrix cache reset calls the method its
 assembler has

---
 .../dataStructures/objects/sparseMatrix/main.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
index 859d103..d738226 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
@@ -219,7 +219,7 @@ class EWC_SparseMatrix(FrozenOnly):
 
     def ___PRIVATE_reset_cache___(self):
         self._cache_ = dict()
-        self.assembler.___PRIVATE_reset_cache___()
+        self.assembler.RESET_cache()
 
     def ___PRIVATE_all_different_cache_key_generator___(self, i):
         """cache key will be different for all elements since we use their id."""
-- 
2.43.0


From 15dea19bb0126b235d4f5d586b0511dcb07df504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 14/15] fix: Gathering_Vector takes lists

---
 tools/elementwiseCache/gathering/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/gathering/vector.py b/tools/elementwiseCache/gathering/vector.py
index 587a33c..c489e56 100644
--- a/tools/elementwiseCache/gathering/vector.py
+++ b/tools/elementwiseCache/gathering/vector.py
@@ -19,7 +19,7 @@ class Gathering_Vector(FrozenOnly):
         if isinstance(gv, list):  # list of integers
             self._gv_ = np.array(gv)
 
-        if isinstance(gv, tuple):  # tuple of a series of range object.
+        elif isinstance(gv, tuple):  # tuple of a series of range object.
             for gvi in gv:
                 assert isinstance(gvi, range), "Tuple of ranges."
             CHAIN = chain(*gv)
-- 
2.43.0


From e91710354a2b1f2fbf905bbb53a60967bae6db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 15/15] fix: Chain_Gathering_Matrix takes a single
 Chain_Gathering_Matrix

---
 tools/elementwiseCache/gathering/regular/chain_matrix/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/gathering/regular/chain_matrix/main.py b/tools/elementwiseCache/gathering/regular/chain_matrix/main.py
index f9f5f32..3cdc4ad 100644
--- a/tools/elementwiseCache/gathering/regular/chain_matrix/main.py
+++ b/tools/elementwiseCache/gathering/regular/chain_matrix/main.py
@@ -30,7 +30,7 @@ class Chain_Gathering_Matrix(FrozenOnly):
         :param GMs:
         """
 
-        if GMs.__class__.__name__ in ('Gathering_Matrix', 'Chain_Gathering_Matrix,'):
+        if GMs.__class__.__name__ in ('Gathering_Matrix', 'Chain_Gathering_Matrix'):
             GMs = [GMs, ]
 
         assert isinstance(GMs, (list, tuple)) and len(GMs) >= 1, \
-- 
2.43.0

