From 810f981f618aa0647f1a109e651179cd262ee58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 01/60] fix: optimize(), optimizer_callback(): respect the
 legacy extrinsics_rt_fromref, frames_rt_toref

---
 mrcal-pywrap.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 86dc537..47e91c5 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1674,6 +1674,13 @@ PyObject* _optimize(optimizemode_t optimizemode,
         }                                                               \
     } while(0)
 
+    // Must happen before the SET_SIZE0_IF_NONE() below: those define the new name,
+    // after which the legacy one would be ignored
+    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
+        goto done;
+    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
+        goto done;
+
     SET_SIZE0_IF_NONE(rt_cam_ref,      NPY_DOUBLE, 0,6);
 
     SET_SIZE0_IF_NONE(rt_ref_frame,                                        NPY_DOUBLE, 0,6);
@@ -1688,11 +1695,6 @@ PyObject* _optimize(optimizemode_t optimizemode,
     SET_SIZE0_IF_NONE(imagersizes,                                            NPY_INT32,  0, 2);
 #undef SET_NULL_IF_NONE
 
-    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
-    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
-
     mrcal_lensmodel_t mrcal_lensmodel;
     // Check the arguments for optimize(). If optimizer_callback, then the other
     // stuff is defined, but it all has valid, default values
-- 
2.43.0


From 2cd41fd569565f30bb14dfeef70c4344f46a9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 02/60] fix:
 indices_point_triangulated_camintrinsics_camextrinsics=None does not crash

---
 mrcal-pywrap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 47e91c5..a1f48a1 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1319,8 +1319,10 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
                                            const PyArrayObject* indices_point_triangulated_camintrinsics_camextrinsics)
 {
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         return 0;
+    if(IS_NULL(observations_point_triangulated))
+        observations_point_triangulated = NULL;
 
     int result = -1;
 
@@ -3199,7 +3201,7 @@ static PyObject* callback_num_measurements(int i,
 
     int N = 0;
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics != NULL)
+    if(!IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         N = PyArray_DIM(indices_point_triangulated_camintrinsics_camextrinsics, 0);
     else
     {
@@ -3354,7 +3356,7 @@ static PyObject* callback_decode_observation_indices_points_triangulated(int ime
 {
 
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
     {
         BARF("No triangulated points in this solve. Nothing to decode");
         return NULL;
-- 
2.43.0


From a39a02db806acf31e06758b0d26bf2fbeff0dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 03/60] fix: pack_state(), unpack_state(): do not crash on an
 empty state vector

---
 mrcal-pywrap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index a1f48a1..b0042d6 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3557,7 +3557,10 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
     }
 
     double* x = (double*)PyArray_DATA(b);
-    if(pack)
+    if(Nstate == 0)
+        // Nothing to do. And I can't divide by Nstate
+        ;
+    else if(pack)
         for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
         {
             mrcal_pack_solver_state_vector( x,
-- 
2.43.0


From 25bedaef8abf123eb3fb7da1ed4406abcc95d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 04/60] fix: optimizer_callback(): the jacobian always has
 Nstate columns

---
 mrcal-pywrap.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index b0042d6..15aad0b 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -37,10 +37,14 @@
 // adds a reference to P,I,X, unless an error is reported
 static PyObject* csr_from_cholmod_sparse( PyObject* P,
                                           PyObject* I,
-                                          PyObject* X )
+                                          PyObject* X,
+                                          int Nrows, int Ncols )
 {
     // I do the Python equivalent of this;
-    // scipy.sparse.csr_matrix((data, indices, indptr))
+    // scipy.sparse.csr_matrix((data, indices, indptr), shape=(Nrows,Ncols))
+    //
+    // The shape must be given explicitly: otherwise scipy infers Ncols from the
+    // data, and we get a too-small matrix if nothing depends on the last columns
 
 
     PyObject* result = NULL;
@@ -62,8 +66,10 @@ static PyObject* csr_from_cholmod_sparse( PyObject* P,
     // Here I'm assuming specific types in my cholmod arrays. I tried to
     // static_assert it, but internally cholmod uses void*, so I can't do that
     PyObject* MatrixDef = PyTuple_Pack(3, X, I, P);
-    args                = PyTuple_Pack(1, MatrixDef);
+    args                = Py_BuildValue("(O(ii))", MatrixDef, Nrows, Ncols);
     Py_DECREF(MatrixDef);
+    if(args == NULL)
+        goto done; // reuse already-set error
 
     if(NULL == (result = PyObject_CallObject(method, args)))
         goto done; // reuse already-set error
@@ -2001,7 +2007,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
                 {
                     jacobian = csr_from_cholmod_sparse((PyObject*)P,
                                                        (PyObject*)I,
-                                                       (PyObject*)X);
+                                                       (PyObject*)X,
+                                                       Nmeasurements, Nstate);
                     if(jacobian == NULL)
                     {
                         // reuse the existing error
-- 
2.43.0


From 05403c2211e6b8069ec2e551577eeadb6a643429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 05/60] fix: num_states() and friends accept the documented
 explicit dimensions

---
 mrcal-pywrap.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 15aad0b..65c17e2 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1524,6 +1524,21 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
             Py_DECREF(kwargs_new);
             return false;
         }
+        if(!contains &&
+           PyUnicode_Check(key) &&
+           (0 == PyUnicode_CompareWithASCIIString(key, "Ncameras_intrinsics") ||
+            0 == PyUnicode_CompareWithASCIIString(key, "Ncameras_extrinsics") ||
+            0 == PyUnicode_CompareWithASCIIString(key, "Nframes")             ||
+            0 == PyUnicode_CompareWithASCIIString(key, "Npoints")             ||
+            0 == PyUnicode_CompareWithASCIIString(key, "Nobservations_board") ||
+            0 == PyUnicode_CompareWithASCIIString(key, "Nobservations_point")))
+        {
+            // Not in the optimization_inputs, but many functions can be given
+            // explicit dimensions, without having any optimization_inputs.
+            // PyArg_ParseTupleAndKeywords() will complain if we're calling a
+            // function that doesn't support these
+            contains = true;
+        }
         if(contains)
         {
             if(0 != PyDict_SetItem(kwargs_new, key, value))
@@ -2338,7 +2353,7 @@ static PyObject* state_index_generic(callback_state_index_t cb,
 
     int calibration_object_height_n = -1;
     int calibration_object_width_n  = -1;
-    if( Nobservations_board > 0 )
+    if( Nobservations_board > 0 && !IS_NULL(observations_board) )
     {
         calibration_object_height_n = PyArray_DIMS(observations_board)[1];
         calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
-- 
2.43.0


From c6e3044f5ca800450a003b70c72fced387a052c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 06/60] fix: num_states() and friends do not crash if called
 without keyword arguments

---
 mrcal-pywrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 65c17e2..ed6377a 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1501,7 +1501,7 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
 {
     *need_decref_kwargs = false;
 
-    if(!PyDict_Check(*kwargs))
+    if(*kwargs == NULL || !PyDict_Check(*kwargs))
         return true;
 
     PyObject* kwargs_new = PyDict_New();
-- 
2.43.0


From 895922d447f85960a46280f7352dac57b3706b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 07/60] fix: ingest_packed_state(): handle partially-locked
 intrinsics of multiple cameras, models without distortions, and
 Npoints_fixed=0

---
 mrcal/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7b19378..f467ab6 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1188,10 +1188,12 @@ None
         if not do_optimize_intrinsics_core:
             iunpacked0 = Ncore
         if not do_optimize_intrinsics_distortions:
-            iunpacked1 = -Ndistortions
+            iunpacked1 = Ncore
 
-        intrinsics[:, iunpacked0:iunpacked1].ravel()[:] = \
-            b[ ivar0:Nvars_intrinsics ]
+        # Not using ravel() here: a subset of the columns isn't contiguous in
+        # general, and I'd be writing to a temporary copy
+        intrinsics[:, iunpacked0:iunpacked1] = \
+            b[ ivar0:ivar0+Nvars_intrinsics ].reshape(len(intrinsics),-1)
 
     ivar0 = mrcal.state_index_extrinsics(0, **optimization_inputs)
     if ivar0 is not None:
@@ -1203,7 +1205,7 @@ None
 
     ivar0 = mrcal.state_index_points(0, **optimization_inputs)
     if ivar0 is not None:
-        points.ravel()[:-Npoints_fixed*3] = b[ivar0:ivar0+Nvars_points]
+        points.ravel()[:Nvars_points] = b[ivar0:ivar0+Nvars_points]
 
     ivar0 = mrcal.state_index_calobject_warp(**optimization_inputs)
     if ivar0 is not None:
-- 
2.43.0


From ac052540aea89a4dece6f679d46b3a2d5cb40ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:48 +0000
Subject: [PATCH 08/60] fix: unproject(get_gradients=True, out=...) accepts the
 documented tuple of arrays, whatever they contain

---
 mrcal/projections.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mrcal/projections.py b/mrcal/projections.py
index f777533..10811dc 100644
--- a/mrcal/projections.py
+++ b/mrcal/projections.py
@@ -304,7 +304,7 @@ if get_gradients: we return a tuple:
                     not any(np.array(out[2].shape[:-len(dv_di_shape)]) - 1)):
                 raise Exception(f"Shape of out[2] doesn't match broadcasted shape for dv_di. Wanted {dv_di_shape}, but got {out[2].shape}")
             dv_di = out[2]
-            dv_di *= 0
+            dv_di[...] = 0
 
         # dv/df
         dv_di[..., :2] += nps.dummy((cxy - q)/fxy, -2) * dv_dq
@@ -378,8 +378,7 @@ if get_gradients: we return a tuple:
         dv_dq = nps.transpose(np.linalg.solve( nps.transpose(dq_du),
                                                nps.transpose(dv_du) ))
         if out is not None:
-            out[1] *= 0.
-            out[1] += dv_dq
+            out[1][...] = dv_dq
             dv_dq = out[1]
 
 
-- 
2.43.0


From 30ce1f4564f5e498ad088869698e5eca65b2e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 09/60] fix: mrcal_lensmodel_name() does not round the CAHVORE
 linearity

---
 types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.h b/types.h
index f551331..a799665 100644
--- a/types.h
+++ b/types.h
@@ -68,7 +68,7 @@ static_assert(sizeof(uint16_t) == sizeof(unsigned short int), "I need a short to
 // Configuration for CAHVORE. These are given as an an
 // "X macro": https://en.wikipedia.org/wiki/X_Macro
 #define MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_, cookie) \
-    _(linearity,    double, "d", ".2f", "lf", , cookie)
+    _(linearity,    double, "d", ".10g", "lf", , cookie)
 typedef struct
 {
     MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_MRCAL_ITEM_DEFINE_ELEMENT, )
-- 
2.43.0


From 3368797ae54f7558dc70992a78bf2f118bf7d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 10/60] fix: mrcal_write_cameramodel_file() does not lose small
 values

---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..65db75d 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6655,12 +6655,12 @@ bool mrcal_write_cameramodel_file(const char* filename,
     fprintf(fp, "  'lensmodel':  '%s',\n", lensmodel_string);
     fprintf(fp, "  'intrinsics': [ ");
     for(int i=0; i<Nparams; i++)
-        fprintf(fp, "%f, ", cameramodel->intrinsics[i]);
+        fprintf(fp, "%.10g, ", cameramodel->intrinsics[i]);
     fprintf(fp, "],\n");
     fprintf(fp, "  'imagersize': [ %u, %u ],\n",
             cameramodel->imagersize[0],
             cameramodel->imagersize[1]);
-    fprintf(fp, "  'extrinsics': [ %f, %f, %f, %f, %f, %f ]\n",
+    fprintf(fp, "  'extrinsics': [ %.10g, %.10g, %.10g, %.10g, %.10g, %.10g ]\n",
             cameramodel->rt_cam_ref[0],
             cameramodel->rt_cam_ref[1],
             cameramodel->rt_cam_ref[2],
-- 
2.43.0


From 2a6d5408fcc05966c58650ba55fa057ab629d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 11/60] fix: copying a cameramodel preserves its
 optimization_inputs

---
 mrcal/cameramodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index ae8a8cb..449933c 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -875,7 +875,8 @@ ARGUMENTS
                     self._valid_intrinsics_region = None
 
                 if file_or_model._optimization_inputs_string is not None:
-                    self._optimization_inputs_string = str(file_or_model._optimization_inputs_string)
+                    # immutable bytes: no copy needed
+                    self._optimization_inputs_string = file_or_model._optimization_inputs_string
                 else:
                     self._optimization_inputs_string = None
 
-- 
2.43.0


From dbba8cb540f69a66ce3e85ac84f500460731e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 12/60] fix: optimization_inputs_reset() clears the camera
 indices too: files written afterwards are readable

---
 mrcal/cameramodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 449933c..def146b 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1957,6 +1957,8 @@ RETURNED VALUE
 None
         '''
         self._optimization_inputs_string = None
+        self._icam_intrinsics            = None
+        self._icam_extrinsics            = None
 
 
     def _optimization_inputs_match(self, other_model):
-- 
2.43.0


From 249e28bc2698ef9c546849d13900a190e25e29f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 13/60] fix: cameramodel.intrinsics(): a setter that fails
 leaves the model unchanged

---
 mrcal/cameramodel.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index def146b..93265ef 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1587,15 +1587,9 @@ tuple where
                             icam_intrinsics,
                             icam_extrinsics)
 
-        self._imagersize = np.array(imagersize, dtype=np.int32)
-        self._intrinsics = (str(intrinsics[0]),
-                            np.array(intrinsics[1], dtype=float))
-
+        # I compute everything that could fail before I touch self: a failing
+        # setter leaves the model alone
         if optimization_inputs is not None:
-            self._optimization_inputs_string = \
-                _serialize_optimization_inputs(optimization_inputs)
-            self._icam_intrinsics = icam_intrinsics
-
             if icam_extrinsics is None:
                 try:
                     icam_extrinsics = \
@@ -1603,11 +1597,20 @@ tuple where
                                                             **optimization_inputs)
                 except Exception as e:
                     raise Exception(f"optimization_inputs given, but icam_extrinsics not given. Inferring icam_extrinsics failed; are the cameras moving? Error: {e}")
-            self._icam_extrinsics = icam_extrinsics
+            optimization_inputs_string = \
+                _serialize_optimization_inputs(optimization_inputs)
         else:
-            self._optimization_inputs_string = None
-            self._icam_intrinsics            = None
-            self._icam_extrinsics            = None
+            optimization_inputs_string = None
+
+        imagersize = np.array(imagersize, dtype=np.int32)
+        intrinsics = (str(intrinsics[0]),
+                      np.array(intrinsics[1], dtype=float))
+
+        self._imagersize                 = imagersize
+        self._intrinsics                 = intrinsics
+        self._optimization_inputs_string = optimization_inputs_string
+        self._icam_intrinsics            = icam_intrinsics
+        self._icam_extrinsics            = icam_extrinsics
 
         # New intrinsics. Previous valid-intrinsics region is no longer
         # meaningful
-- 
2.43.0


From 39efe898cad6504ddf5c07683bb75505bd7becca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 14/60] fix: cameramodel.rt_cam_ref(): do not accept a pose of
 the wrong size

---
 mrcal/cameramodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 93265ef..c20e351 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1695,7 +1695,10 @@ The rt transformation FROM the reference coordinate system.
 
 
         # setter
-        self._rt_cam_ref = np.array(rt, dtype=float)
+        rt = np.array(rt, dtype=float)
+        # raises exception on error
+        _validateExtrinsics(rt)
+        self._rt_cam_ref = rt
         return True
 
 
-- 
2.43.0


From e4b93cde5c6a06461beb4e2cc2de234eeabcd27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 15/60] fix: corresponding_icam_extrinsics() reports an error
 for a camera without observations

---
 mrcal.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 65db75d..f38e563 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3963,6 +3963,12 @@ bool mrcal_corresponding_icam_extrinsics(// out
                                                    "point"))
             return false;
 
+    if(icam_map_to_extrinsics[icam_intrinsics] == -100)
+    {
+        MSG("Cannot compute icam_extrinsics. There are no observations from camera %d",
+            icam_intrinsics);
+        return false;
+    }
     *icam_extrinsics = icam_map_to_extrinsics[icam_intrinsics];
 
     return true;
-- 
2.43.0


From c9b02b2fa67926d1f0080fc0a8506ff885e10313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 16/60] fix: the C cameramodel parser rejects an imager with
 zero height

---
 cameramodel-parser.re | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cd170da..01c8bce 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -640,7 +640,8 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
     if(!(model_not_intrinsics.lensmodel.type >= 0 &&
          did_read_intrinsics &&
          model_not_intrinsics.rt_cam_ref[0] != DBL_MAX &&
-         model_not_intrinsics.imagersize[0] > 0))
+         model_not_intrinsics.imagersize[0] > 0 &&
+         model_not_intrinsics.imagersize[1] > 0))
     {
         MSG("Incomplete cameramodel. Need keys: lensmodel, intrinsics, rt_cam_ref/extrinsics, imagersize");
         if(model_need_dealloc)
-- 
2.43.0


From ea6d8ad9cd18a179b5224cc731995506dfb11632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:20 +0000
Subject: [PATCH 17/60] fix: the C cameramodel parser can skip numbers with
 positive exponents

---
 cameramodel-parser.re | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index 01c8bce..716361e 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -306,12 +306,12 @@ static bool read_balanced_list( const char** pYYCURSOR, const char* start_file )
     while(true)
     {
         /*!re2c
-          ( IGNORE | [0-9eE.,-]*)* [[(]
+          ( IGNORE | [0-9eE.,+-]*)* [[(]
           {
             level++;
             continue;
           }
-          ( IGNORE | [0-9eE.,-]*)* [\])] IGNORE ","?
+          ( IGNORE | [0-9eE.,+-]*)* [\])] IGNORE ","?
           {
             level--;
             if(level < 0)
-- 
2.43.0


From 735fbe5f72a0f0b01a59c0d67822d3aa542f2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 18/60] fix: hypothesis_board_corner_positions() doesn't modify
 the caller's idx_inliers

---
 mrcal/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index f467ab6..d18bb24 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -574,6 +574,8 @@ RETURNED VALUE
     # shape (Nobservations,)
     idx_observations = indices_frame_camintrinsics_camextrinsics[:,1]==icam_intrinsics
 
+    # idx_inliers may be the caller's array: I don't modify it
+    idx_inliers  = idx_inliers.copy()
     idx_inliers [~idx_observations] = False
     idx_outliers[~idx_observations] = False
 
-- 
2.43.0


From 63b48721d9f78c2cde1c4cb80ba10a7280d8dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 19/60] fix: make_perfect_observations() doesn't turn outliers
 into inliers

---
 mrcal/synthetic_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index f473af2..f739408 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -742,7 +742,8 @@ None
                 observed_pixel_uncertainty * \
                 np.random.randn(*optimization_inputs[what][...,:2].shape)
 
-            weight = nps.dummy( optimization_inputs[what][...,2],
+            # a copy: the weights in the optimization_inputs are not touched
+            weight = nps.dummy( optimization_inputs[what][...,2].copy(),
                                 axis = -1 )
             weight[ weight<=0 ] = 1. # to avoid dividing by 0
 
-- 
2.43.0


From 82da5506008fc277ab75fe880da2f579871348f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 20/60] fix: optimize(), optimizer_callback(): intrinsics=None
 raises an exception instead of crashing

---
 mrcal-pywrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index ed6377a..539b6d6 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -997,6 +997,12 @@ static bool optimize_validate_args( // out
     OPTIMIZER_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
     CROSS_REPROJECTION_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
 
+    if(IS_NULL(intrinsics))
+    {
+        BARF("'intrinsics' MUST be given as an array; got None");
+        return false;
+    }
+
     int Ncameras_intrinsics = PyArray_DIMS(intrinsics)[0];
     int Ncameras_extrinsics = PyArray_DIMS(rt_cam_ref)[0];
     if( PyArray_DIMS(imagersizes)[0] != Ncameras_intrinsics )
-- 
2.43.0


From cfcfc4cc8c13ba8ea5a50f7a7b52f61fa4cfb5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 21/60] fix: corresponding_icam_extrinsics() checks the ranges
 and sizes of the indices before using them

---
 mrcal-pywrap.c | 27 ++++++++++++++++++++++-----
 mrcal.c        | 14 ++++++++++++++
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 539b6d6..eefe669 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3309,10 +3309,20 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     int icam_extrinsics;
 
-    if(Nobservations_board > 0 && indices_frame_camintrinsics_camextrinsics == NULL)
+    if(Nobservations_board > 0)
     {
-        BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
-        return NULL;
+        if(IS_NULL(indices_frame_camintrinsics_camextrinsics))
+        {
+            BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
+            return NULL;
+        }
+        if(PyArray_DIM(indices_frame_camintrinsics_camextrinsics,0) != Nobservations_board)
+        {
+            BARF("Inconsistent Nobservations_board: have %d, but 'indices_frame_camintrinsics_camextrinsics' says %ld",
+                 Nobservations_board,
+                 PyArray_DIM(indices_frame_camintrinsics_camextrinsics,0));
+            return NULL;
+        }
     }
     mrcal_observation_board_t c_observations_board[Nobservations_board];
     fill_c_observations_board(// output
@@ -3323,12 +3333,19 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     if(Nobservations_point > 0)
     {
-        if(indices_point_camintrinsics_camextrinsics == NULL)
+        if(IS_NULL(indices_point_camintrinsics_camextrinsics))
         {
             BARF("Have Nobservations_point > 0, but indices_point_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
             return NULL;
         }
-        if(observations_point == NULL)
+        if(PyArray_DIM(indices_point_camintrinsics_camextrinsics,0) != Nobservations_point)
+        {
+            BARF("Inconsistent Nobservations_point: have %d, but 'indices_point_camintrinsics_camextrinsics' says %ld",
+                 Nobservations_point,
+                 PyArray_DIM(indices_point_camintrinsics_camextrinsics,0));
+            return NULL;
+        }
+        if(IS_NULL(observations_point))
         {
             BARF("Have Nobservations_point > 0, but observations_point == NULL. Some required arguments missing?");
             return NULL;
diff --git a/mrcal.c b/mrcal.c
index f38e563..74a49cb 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3896,11 +3896,23 @@ static
 bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, int i,
                                             int* icam_map_to_extrinsics,
                                             int* icam_map_to_intrinsics,
+                                            int Ncameras_intrinsics,
+                                            int Ncameras_extrinsics,
                                             const char* what)
 {
     int icam_intrinsics = icam->intrinsics;
     int icam_extrinsics = icam->extrinsics;
 
+    if(icam_intrinsics < 0 || icam_intrinsics >= Ncameras_intrinsics ||
+       icam_extrinsics >= Ncameras_extrinsics)
+    {
+        MSG("Cannot compute icam_extrinsics. %s observation %d has out-of-range icam_intrinsics,icam_extrinsics %d,%d; have Ncameras_intrinsics,Ncameras_extrinsics %d,%d",
+            what, i,
+            icam_intrinsics, icam_extrinsics,
+            Ncameras_intrinsics, Ncameras_extrinsics);
+        return false;
+    }
+
     if(icam_extrinsics < 0) icam_extrinsics = -1;
 
     if(icam_map_to_intrinsics[icam_extrinsics+1] == -100)
@@ -3954,12 +3966,14 @@ bool mrcal_corresponding_icam_extrinsics(// out
         if(!_corresponding_icam_extrinsics__check( &observations_board[i].icam, i,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
+                                                   Ncameras_intrinsics, Ncameras_extrinsics,
                                                    "board"))
             return false;
     for(int i=0; i<Nobservations_point; i++)
         if(!_corresponding_icam_extrinsics__check( &observations_point[i].icam, i,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
+                                                   Ncameras_intrinsics, Ncameras_extrinsics,
                                                    "point"))
             return false;
 
-- 
2.43.0


From e86e238b49b72c5c15091fbfb6752bd6cc9f9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 22/60] fix: two observations of a triangulated point from the
 reference are reported instead of crashing

---
 mrcal-pywrap.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index eefe669..503db9a 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1365,6 +1365,8 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
     int ipoint_current = -1;
     int Npoints_in_this_set = 0;
+    // How many observations of this point came from a camera at the reference
+    int Npoints_at_ref_in_this_set = 0;
 
     // Needed for the unproject() below
     int                            Nintrinsics_state = 0;
@@ -1438,6 +1440,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
             ipoint_current = ipoint;
             Npoints_in_this_set = 1;
+            Npoints_at_ref_in_this_set = 0;
         }
         else
         {
@@ -1445,6 +1448,13 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
                 i);
             return -1;
         }
+
+        if(icam_extrinsics < 0 && ++Npoints_at_ref_in_this_set > 1)
+        {
+            BARF("Error in indices_point_triangulated_camintrinsics_camextrinsics[%d]. ipoint=%d was already observed by a camera at the reference: no triangulation possible",
+                i, ipoint);
+            return -1;
+        }
     }
 
     if(!_finish_triangulated_set(c_observations_point_triangulated,
-- 
2.43.0


From cf7487c07966bac7cbd905ebe1d3284046c3d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 23/60] fix: arrays in a non-native byte order are rejected
 instead of being misread

---
 python-wrapping-utilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python-wrapping-utilities.h b/python-wrapping-utilities.h
index d3c3b92..de4c0e7 100644
--- a/python-wrapping-utilities.h
+++ b/python-wrapping-utilities.h
@@ -101,6 +101,12 @@ static bool _check_layout(const char*    name,
                      name, npy_type_string);
                 return false;
             }
+            if( !PyArray_ISNOTSWAPPED(pyarrayobj) )
+            {
+                BARF("'%s' must have the native byte order",
+                     name);
+                return false;
+            }
             if( do_check_for_contiguity &&
                 !PyArray_IS_C_CONTIGUOUS(pyarrayobj) )
             {
-- 
2.43.0


From b312e3ea60d70b76d6f1f25ea3703661037dcc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 24/60] fix: an out-of-range Npoints_fixed is rejected instead
 of overrunning the arrays

---
 mrcal-pywrap.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 503db9a..ffc3a4e 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1150,6 +1150,11 @@ static bool optimize_validate_args( // out
     }
 
     int Npoints = PyArray_DIMS(points)[0];
+    if( Npoints_fixed < 0 )
+    {
+        BARF("Npoints_fixed MUST be >= 0. Got %d", Npoints_fixed);
+        return false;
+    }
     if( Npoints > 0 )
     {
         if(Npoints_fixed > Npoints)
@@ -3578,6 +3583,13 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
 
     mrcal_problem_selections_t problem_selections = CONSTRUCT_PROBLEM_SELECTIONS();
 
+    if( Npoints_fixed < 0 || Npoints_fixed > Npoints )
+    {
+        BARF("Npoints_fixed MUST be in [0,Npoints]. Got Npoints_fixed=%d, Npoints=%d",
+             Npoints_fixed, Npoints);
+        goto done;
+    }
+
     if( PyArray_TYPE(b) != NPY_DOUBLE )
     {
         BARF("The given array MUST have values of type 'float'");
-- 
2.43.0


From 71db3833a7d9ef0dd796cef20308dd6085fbfbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 25/60] fix: mapping_file_framenocameraindex() handles frame
 numbers of different lengths

With ('frame1.jpg','frame10.jpg') the common prefix was 'frame1', so the first
file had an empty center, and was rejected as non-numeric (or with one camera:
the frame numbers were silently replaced). The digits next to the varying center
are a part of the frame number, so they're now not taken as a part of the prefix
or suffix
---
 mrcal/utils.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index d18bb24..6e9e1e2 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -885,6 +885,14 @@ from the filename.
             return [0]
 
         leading,trailing = get_longest_leading_trailing_substrings(files)
+
+        # Any digits adjacent to the varying center are a part of the frame
+        # number, not of the common prefix, suffix. This must be done before I
+        # look at the centers: ('frame1.jpg','frame10.jpg') have an empty center
+        # in the first file, otherwise
+        leading  = re.sub("[0-9]+$", "", leading)
+        trailing = re.sub("^[0-9]+", "", trailing)
+
         Nleading  = len(leading)
         Ntrailing = len(trailing)
 
@@ -903,21 +911,8 @@ from the filename.
                                 format(f, f[Nleading:Itrailing],
                                        leading, trailing))
 
-        # Alrighty. The centers are all numeric. I gather all the digits around the
-        # centers, and I'm done
-        m = re.match("^(.*?)([0-9]*)$", leading)
-        if m:
-            pre_numeric = m.group(2)
-        else:
-            pre_numeric = ''
-
-        m = re.match("^([0-9]*)(.*?)$", trailing)
-        if m:
-            post_numeric = m.group(1)
-        else:
-            post_numeric = ''
-
-        return [int(pre_numeric + f[Nleading:Itrailing] + post_numeric) for f in files]
+        # Alrighty. The centers are all numeric. I'm done
+        return [int(f[Nleading:Itrailing]) for f in files]
 
 
 
-- 
2.43.0


From c50f2599bbbc4a4225ec42e05bdd58903d18d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 26/60] fix: compute_chessboard_corners() reports usable paths
 for a corners.vnl in the current directory

If corners_cache_vnl has no directory component, the directory was '', and the
reported paths were '/image.jpg'
---
 mrcal/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index e9c2cf8..26ebbe3 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -333,7 +333,9 @@ which mrcal.optimize() expects
                     elif corners_dir is not None      and \
                          context['f'][0] != '/'       and \
                          not os.path.exists(context['f']):
-                        filename_canonical = f"{corners_dir}/{context['f']}"
+                        # join() because corners_dir may be '': the corners file
+                        # is in the current directory
+                        filename_canonical = os.path.join(corners_dir, context['f'])
                     else:
                         filename_canonical = os.path.normpath(context['f'])
 
-- 
2.43.0


From c50c8ec48ee6707bf1921351a30334f71cee9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 27/60] fix: mrcal-cull-corners --cull-rad-off-center-board
 counts missing points

Each point that wasn't detected ('-') shifted the board coordinates of all the
points in that image that followed, so the wrong points were culled
---
 mrcal-cull-corners | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 02c501b..e84e888 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -222,6 +222,21 @@ if args.cull_left_of              is not None or \
             continue
 
         f = l.split()
+
+        if args.cull_rad_off_center_board is not None:
+            # I need to keep track of where I am on the board even if I don't
+            # cull this point: missing points occupy a spot on the board too
+            if filename_current != f[0]:
+                filename_current = f[0]
+                xy_pt *= 0
+
+            accept_pt = nps.norm2(xy_pt - cboard) < args.cull_rad_off_center_board*args.cull_rad_off_center_board
+
+            xy_pt[0] += 1
+            if xy_pt[0] == args.object_width_n:
+                xy_pt[0] = 0
+                xy_pt[1] += 1
+
         if f[1] == '-':
             sys.stdout.write(l)
             continue
@@ -238,20 +253,9 @@ if args.cull_left_of              is not None or \
            nps.norm2(np.array((float(f[1]), float(f[2]))) - c) < r*r:
             sys.stdout.write(l)
             continue
-        if args.cull_rad_off_center_board is not None:
-            if filename_current != f[0]:
-                filename_current = f[0]
-                xy_pt *= 0
-
-            accept_pt = nps.norm2(xy_pt - cboard) < args.cull_rad_off_center_board*args.cull_rad_off_center_board
-
-            xy_pt[0] += 1
-            if xy_pt[0] == args.object_width_n:
-                xy_pt[0] = 0
-                xy_pt[1] += 1
-            if accept_pt:
-                sys.stdout.write(l)
-                continue
+        if args.cull_rad_off_center_board is not None and accept_pt:
+            sys.stdout.write(l)
+            continue
 
         # Cull the point!
         f[3] = '-'
-- 
2.43.0


From 9a5e50a24f6bc7bacf59bd670f2bfa5e42c6c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 28/60] fix: mrcal-cull-corners
 --cull-random-observations-ratio keeps level-0 points

The level was read as a weight, and a weight of 0 means 'ignore'. So all the
full-resolution detections were thrown out. And a ratio of 0.0 is a valid ratio
---
 mrcal-cull-corners | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index e84e888..5e63768 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -143,12 +143,12 @@ if Nculloptions != 1:
 
 if args.object_width_n is not None and args.object_height_n is None:
     args.object_height_n = args.object_width_n
-if args.cull_random_observations_ratio or args.cull_rad_off_center_board:
+if args.cull_random_observations_ratio is not None or args.cull_rad_off_center_board is not None:
     if (args.object_width_n is None or args.object_height_n is None):
         print("--cull-random-observation-ratio and --cull-rad-off-center-board requires --object-width-n",
               file=sys.stderr)
         sys.exit(1)
-if args.cull_random_observations_ratio:
+if args.cull_random_observations_ratio is not None:
     if args.filename is not None:
         print("--cull-random-observation-ratio is exclusive with --filename",
               file=sys.stderr)
@@ -271,7 +271,7 @@ observations, _, paths = \
     mrcal.compute_chessboard_corners(W                  = args.object_width_n,
                                      H                  = args.object_height_n,
                                      corners_cache_vnl  = sys.stdin,
-                                     weight_column_kind = 'weight')
+                                     weight_column_kind = 'level')
 
 N_keep       = int(round((1.0 - args.cull_random_observations_ratio) * len(observations)))
 indices_keep = np.sort(np.random.choice(len(observations), N_keep, replace=False))
@@ -291,6 +291,8 @@ for i in range(len(paths)):
     path   = paths[i]
     for j in range(observations.shape[-2]):
         l = observations[i][j][2]
+        # compute_chessboard_corners() gave me the weight = 2^(-level), or <0 for
+        # "ignore this point". I write out the original level
         if l < 0: l = '-'
-        else:     l = int(l)
+        else:     l = int(round(-np.log2(l)))
         print(f"{path} {observations[i][j][0]} {observations[i][j][1]} {l}")
-- 
2.43.0


From 82aae980ae20f9a362807749bc9ddfa2682275b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 29/60] fix: traverse_sensor_links(): stop if the callback
 returns False, return True, reject an empty matrix

---
 mrcal-pywrap.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index ffc3a4e..a670a3c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4306,8 +4306,11 @@ callback_sensor_link_C(const uint16_t idx_to, const uint16_t idx_from, void* coo
     if(result == NULL)
         return false;
 
+    // An explicit False means "error; stop". Anything else (including None from
+    // callbacks that don't return anything) means "continue"
+    const bool success = (result != Py_False);
     Py_DECREF(result);
-    return true;
+    return success;
 }
 static
 PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
@@ -4336,6 +4339,11 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
         goto done;
     }
     Nsensors = PyArray_DIMS(connectivity_matrix)[1];
+    if(Nsensors <= 0)
+    {
+        BARF("The connectivity_matrix must describe at least one sensor");
+        goto done;
+    }
 
     if(!_check_layout("connectivity_matrix",
                       connectivity_matrix,
@@ -4379,8 +4387,8 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
         }
     }
 
-    Py_INCREF(Py_None);
-    result = Py_None;
+    Py_INCREF(Py_True);
+    result = Py_True;
 
  done:
 
-- 
2.43.0


From 008653a7d5d11dd2ce42cf5396dd5383a01e037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 30/60] fix: seeding: use observations of a pair of cameras
 regardless of their order in the frame

---
 mrcal/calibration.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 26ebbe3..b25f380 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1009,21 +1009,21 @@ def _estimate_camera_poses( # shape (Nobservations,4,3)
                 Rt_cam1_frame = None
                 iframe_last   = iframe_this
 
-            # The cameras appear in order. And above I made sure that icam_from >
-            # icam_to, so I take advantage of that here
             if icam_this == icam_to:
                 if Rt_cam0_frame is not None:
                     raise Exception(f"Saw multiple camera{icam_this} observations in frame {iframe_this}")
                 Rt_cam0_frame = calobject_poses_local_Rt_cf[i_observation, ...]
 
             elif icam_this == icam_from:
-                if Rt_cam0_frame is None: # have camera1 observation, but not camera0
-                    continue
-
                 if Rt_cam1_frame is not None:
                     raise Exception(f"Saw multiple camera{icam_this} observations in frame {iframe_this}")
                 Rt_cam1_frame = calobject_poses_local_Rt_cf[i_observation, ...]
 
+            else:
+                continue
+
+            # The two cameras may appear in any order within a frame
+            if Rt_cam0_frame is not None and Rt_cam1_frame is not None:
                 A = nps.glue(A, mrcal.transform_point_Rt(Rt_cam0_frame,
                                                          ref_object),
                              axis = -2)
-- 
2.43.0


From d8117695402af4d06590f879c581dd13d89b174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 31/60] fix: seed_stereographic(): an array of a single focal
 length applies to all the cameras

---
 mrcal/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index b25f380..013d396 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1536,7 +1536,7 @@ We return a tuple:
         focal_estimate = (focal_estimate,)
 
     if Nfocal == 1:
-        focal_estimate = focal_estimate * Ncameras
+        focal_estimate = (focal_estimate[0],) * Ncameras
     elif Nfocal == Ncameras:
         # already good
         pass
-- 
2.43.0


From 623fb7d378dc56c3dde4d04bff491e347502c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 32/60] fix: triangulate_lindstrom(v_are_local=False) did not
 broadcast over Rt01

---
 mrcal/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index c4cbd3f..cd117ff 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -941,7 +941,7 @@ if get_gradients: we return a tuple:
     if not v_are_local:
         if get_gradients:
             raise Exception("get_gradients is True, so v_are_local MUST be True")
-        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[:3,:]), v1)
+        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[...,:3,:]), v1)
 
     if not get_gradients:
         return mrcal._triangulation_npsp._triangulate_lindstrom(v0, v1, Rt01, out=out)
-- 
2.43.0


From f8265c16775ef67913a2aeef7d9aef1948c40ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 33/60] fix: triangulation returned NaN instead of (0,0,0) for
 rays along the baseline

---
 triangulation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..cba0991 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -53,7 +53,7 @@ triangulate_assume_intersect( // output
     if(fabs_det_xz > fabs_det_yz)
     {
         // xz
-        if(fabs_det_xz <= 1e-10)
+        if(!(fabs_det_xz > 1e-10)) // true if NaN
             return false;
 
         val_withgrad_t<NGRAD> det = v1.v[0]*v0.v[2] - v0.v[0]*v1.v[2];
@@ -75,7 +75,7 @@ triangulate_assume_intersect( // output
     else
     {
         // yz
-        if(fabs_det_yz <= 1e-10)
+        if(!(fabs_det_yz > 1e-10)) // true if NaN
             return false;
 
         val_withgrad_t<NGRAD> det = v1.v[1]*v0.v[2] - v0.v[1]*v1.v[2];
-- 
2.43.0


From 31f907cb665fde2f2aac98b90e5bc3a25dcbef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 34/60] fix: polygon_difference() works with holes with shapely
 2

---
 mrcal/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 6e9e1e2..d98f16e 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -728,16 +728,16 @@ element (difference consists of N separate polygons)
         hole = p.interiors[0]
         for i in range(0,len(hole.coords)):
 
-            l0 = np.array((hole.centroid))
+            l0 = np.array(hole.centroid.coords[0])
             l1 = np.array((hole.coords[i]))
             l0,l1 = (l1 + 100*(l0-l1)),(l0 + 100*(l1-l0))
             line = LineString( (l0,l1) )
 
             s = shapely.ops.split(p, line)
-            if len(s) > 1:
+            if len(s.geoms) > 1:
                 # success. split into multiple pieces. I process each one
                 # recursively, and I'm done. I return a flattened list
-                return [subpiece for piece in s for subpiece in split_polygon_to_remove_holes(piece)]
+                return [subpiece for piece in s.geoms for subpiece in split_polygon_to_remove_holes(piece)]
             # Split didn't work. Try the next vertex
 
         print("WARNING: Couldn't split the region. Ignoring",
-- 
2.43.0


From bd921eae496f389bb9482f39543872369af8b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 35/60] fix: stereo_range() with dense disparities outside of
 uint16; rectified-model validation

A dense disparity image that contained floating-point, negative or wide values
was truncated or wrapped to uint16, and ranges were wrong. The checks of the
rectified models raised a NameError instead of the message, and accepted a
second camera on the -x side
---
 mrcal/stereo.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index 1efe69b..51605ca 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -809,13 +809,13 @@ rectified direction
         np.array(models_rectified[0].imagersize()) - \
         np.array(models_rectified[1].imagersize())
     if imagersize_diff[0] != 0 or imagersize_diff[1] != 0:
-        raise Exceptions("The two rectified models MUST have the same imager size")
+        raise Exception("The two rectified models MUST have the same imager size")
 
     costh = (np.trace(Rt01[:3,:]) - 1.) / 2.
     if costh < 0.999999:
         raise Exception("The two rectified models MUST have the same relative rotation")
 
-    if nps.norm2(Rt01[3,1:]) > 1e-9:
+    if nps.norm2(Rt01[3,1:]) > 1e-9 or Rt01[3,0] <= 0:
         raise Exception("The two rectified models MUST have a translation ONLY in the +x rectified direction")
 
 def rectification_maps(models,
@@ -1236,6 +1236,20 @@ RETURNED VALUES
        (isinstance(disparity, np.ndarray) and disparity.dtype == np.int16):
         disparity_scaled_max = 0x7FFF
 
+    if qrect0 is None:
+        W,H = models_rectified[0].imagersize()
+        if np.shape(disparity) != (H,W):
+            raise Exception(f"qrect0 is None, so the given disparity and full rectified images MUST have the same dimensions. I have {np.shape(disparity)=} and {models_rectified[0].imagersize()=}")
+        if not (np.issubdtype(disparity.dtype, np.integer) and \
+                np.max(disparity) <= np.iinfo(np.uint16).max and \
+                disparity_scale == int(disparity_scale)):
+            # The dense path works with 16-bit integer disparities only. I cannot
+            # represent these disparities like that, so I use the sparse path
+            qrect0 = np.ascontiguousarray( \
+                       nps.mv( nps.cat( *np.meshgrid(np.arange(W,dtype=float),
+                                                     np.arange(H,dtype=float))),
+                               0, -1))
+
     if qrect0 is None:
         if disparity_scaled_min is None:
             if disparity_min is None:
@@ -1277,16 +1291,15 @@ RETURNED VALUES
     baseline = nps.mag(Rt01[3,:])
 
     if qrect0 is None:
-        W,H = models_rectified[0].imagersize()
-        if np.any(disparity.shape - np.array((H,W),dtype=int)):
-            raise Exception(f"qrect0 is None, so the given disparity and full rectified images MUST have the same dimensions. I have {disparity.shape=} and {models_rectified[0].imagersize()=}")
+        # Values that do not fit into a uint16_t must not wrap around
+        def limit_uint16(x): return np.uint16(min(max(x, 0), np.iinfo(np.uint16).max))
 
         r =                                    \
             mrcal._mrcal_npsp._stereo_range_dense \
-                ( disparity_scaled     = disparity.astype(np.uint16),
+                ( disparity_scaled     = np.maximum(disparity, 0).astype(np.uint16),
                   disparity_scale      = np.uint16(disparity_scale),
-                  disparity_scaled_min = np.uint16(disparity_scaled_min),
-                  disparity_scaled_max = np.uint16(disparity_scaled_max),
+                  disparity_scaled_min = limit_uint16(np.ceil (disparity_scaled_min)),
+                  disparity_scaled_max = limit_uint16(np.floor(disparity_scaled_max)),
                   rectification_model_type = models_rectified[0].intrinsics()[0],
                   fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
                   baseline             = baseline )
-- 
2.43.0


From d60e976a7faf7a13bddb1b44e9c11fe07ed8e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 36/60] fix: .cahvor reader: integer-only vectors, empty
 valid-intrinsics regions, CAHVORE without R

---
 mrcal/cahvor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index b28248f..7e29b53 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -77,7 +77,7 @@ massive hack, so I'm not documenting this
 
     # normalize optical axis. Mostly this is here to smooth out ASCII roundoff
     # errors
-    A /= nps.mag(A)
+    A = A / nps.mag(A)
     fx,fy,cx,cy,Hp,Vp = _HVs_HVc_HVp(A,H,V)
 
     # By construction Hp and Vp will both be orthogonal to A. But CAHVOR allows
@@ -156,7 +156,7 @@ def _read(s, name):
         if re.match(r'^\s*#|^\s*$', l):
             continue
 
-        m = re.match(r'\s*(\w+)\s*=\s*(.+?)\s*\n?$',
+        m = re.match(r'\s*(\w+)\s*=\s*(.*?)\s*\n?$',
                      l, flags=re.I)
         if m:
             key   = m.group(1)
@@ -186,7 +186,7 @@ def _read(s, name):
             # use integers
             if re.match(r'[0-9\s]+$', x[i]): totype = int
             else:                            totype = float
-            x[i] = np.array( [ totype(v) for v in re.split(r'\s+', x[i])], dtype=totype)
+            x[i] = np.array( [ totype(v) for v in x[i].split()], dtype=totype)
 
     # Now I sanity-check the results and call it done
     for k in ('Dimensions','C','A','H','V'):
@@ -235,6 +235,8 @@ def _read(s, name):
     if m:
         modelname = x['Model']
         is_cahvore = True
+        if 'R' not in x:
+            raise Exception(f"Cahvor file '{name}' LOOKS like a cahvore, but lacks the R")
         try:
             mtype = int(m.group(1))
             if m.group(3) is None:
@@ -414,7 +416,7 @@ def write(f, m, note=None):
         with open(f, 'w') as openedfile:
             return _write(openedfile, m, note)
 
-    return _write(f, m)
+    return _write(f, m, note)
 
 def read_transforms(f):
     r'''Reads a file (a filename string, or a file-like object: an iterable
-- 
2.43.0


From e87d744382fa33712ce1eef9fd7122fdbaeea030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 37/60] fix: ROS/OpenCV model reader: malformed R or missing
 keys raise CameramodelParseException

---
 mrcal/cameramodel.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index c20e351..7b5035c 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -615,8 +615,6 @@ A sample valid .cameramodel file:
         renamed('icam_intrinsics_optimization_inputs',
                 'icam_intrinsics',
                 model)
-        model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
-
         renamed('extrinsics', 'rt_cam_ref',
                 model,
                 check_equal = True)
@@ -628,10 +626,14 @@ A sample valid .cameramodel file:
                              'rt_cam_ref',
                              'imagersize'))
         keys_received = set(model.keys())
-        if keys_received < keys_required:
-            raise Exception("Model must have at least these keys: '{}'. Instead I got '{}'". \
+        if not keys_required <= keys_received:
+            # Not a .cameramodel. I might be able to parse this as some other
+            # format
+            raise CameramodelParseException("Model must have at least these keys: '{}'. Instead I got '{}'". \
                             format(keys_required, keys_received))
 
+        model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
+
         valid_intrinsics_region = None
         if 'valid_intrinsics_region' in model:
             if len(model['valid_intrinsics_region']) > 0:
@@ -1080,7 +1082,7 @@ general function is used to find the data. The args are:
                    P[2,3] != 0:
                     raise CameramodelParseException(f"model {P_at} expected to have last column of [x*fx,0,0], but instead have: {P[:,3]}")
 
-                try:
+                if 'rotation' in model_in or 'R' in model_in:
                     R,R_at = \
                         find_array( ( ('rotation','data'),
                                       ('rotation',),
@@ -1088,7 +1090,7 @@ general function is used to find the data. The args are:
                                     dtype = float,
                                     shape = (3,3),
                                     model = model_in )
-                except:
+                else:
                     R = mrcal.identity_R()
                     R_at = 'default'
 
-- 
2.43.0


From 248a1d77c672b731868636db104930ef1ab08364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 38/60] fix: model converters stopped at the first existing
 output instead of processing the remaining inputs

---
 mrcal-from-cahvor | 4 ++--
 mrcal-from-ros    | 4 ++--
 mrcal-to-cahvor   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrcal-from-cahvor b/mrcal-from-cahvor
index ddf3675..bc9635e 100755
--- a/mrcal-from-cahvor
+++ b/mrcal-from-cahvor
@@ -86,9 +86,9 @@ for model in args.model:
     else:
         base,extension = os.path.splitext(model)
         if extension.lower() == '.cameramodel':
-            print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
+            print("Input file is already in the cameramodel format (judging from the filename). Doing nothing with this model",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-from-ros b/mrcal-from-ros
index f36b75b..6bf0e2e 100755
--- a/mrcal-from-ros
+++ b/mrcal-from-ros
@@ -138,9 +138,9 @@ for model in args.model:
     else:
         base,extension = os.path.splitext(model)
         if extension.lower() == '.cameramodel':
-            print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
+            print("Input file is already in the cameramodel format (judging from the filename). Doing nothing with this model",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-to-cahvor b/mrcal-to-cahvor
index 46fe5d8..b97a17a 100755
--- a/mrcal-to-cahvor
+++ b/mrcal-to-cahvor
@@ -83,9 +83,9 @@ for model in args.model:
     else:
         base,extension = os.path.splitext(model)
         if extension.lower() == '.cahvor':
-            print("Input file is already in the cahvor format (judging from the filename). Doing nothing",
+            print("Input file is already in the cahvor format (judging from the filename). Doing nothing with this model",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
-- 
2.43.0


From 4491b915801b442eaa3343f8c371fa5a2d21fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 39/60] fix: kalibr converters: malformed T is an error;
 distortion_coeffs of any length are written in full

---
 mrcal-from-kalibr | 4 ++--
 mrcal-to-kalibr   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index a7acb8f..2fca28c 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -263,11 +263,11 @@ def convert_one(d,name):
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
         if np.any(T_cn_cnm1[3,:] - np.array((0,0,0,1))):
             print(f"ERROR: T_cn_cnm1 must have a last row of (0,0,0,1); got {T_cn_cnm1[3,:]}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
 
         # The documentation is here:
         #
diff --git a/mrcal-to-kalibr b/mrcal-to-kalibr
index 4e307de..e1f8977 100755
--- a/mrcal-to-kalibr
+++ b/mrcal-to-kalibr
@@ -143,15 +143,15 @@ def convert_one(i, model_filename):
 
     if   lensmodel_type == 'LENSMODEL_OPENCV4':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'radtan'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     elif lensmodel_type == 'LENSMODEL_PINHOLE':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'none'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     else:
         # cahvor(e)
-- 
2.43.0


From 06b86d2cd2250fcd4d55411de44864bd7c883843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 40/60] fix: uncertainty: problems with points, locked
 extrinsics, measurements without gradients

---
 uncertainty.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/uncertainty.c b/uncertainty.c
index ebc5256..7476555 100644
--- a/uncertainty.c
+++ b/uncertainty.c
@@ -940,15 +940,6 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
 
 #warning check all Nstate_ and state_index_ references; some of those could be invalid (if some variables are locked for instance). Figure out what makes sense and what we should BARF() against
 
-#warning Do I need this? Where do I assume it?
-    if(state_index_frames0 >= 0 &&
-       state_index_calobject_warp0 >= 0 &&
-       !(state_index_calobject_warp0 == state_index_frames0 + Nstate_frames))
-    {
-        MSG("I assume that the calobject_warp state variables follow the frame state variables immediately");
-        return false;
-    }
-
 #warning Do I need this? Where do I assume it?
     if(state_index_calobject_warp0 >= 0 &&
        !(Nstate_calobject_warp == 2))
@@ -972,6 +963,7 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
     }
 
     if(state_index_frames0     < 0 &&
+       state_index_points0     < 0 &&
        state_index_extrinsics0 < 0)
     {
         MSG("Cross-reprojection uncertainty requires either the extrinsics or the frames/points to be optimized. Otherwise the direct method looking at the intrinsics subset of J works fine");
@@ -1102,6 +1094,9 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
             do
             {
                 ival = Jrowptr[imeas];
+                if(!(ival < Jrowptr[imeas+1]))
+                    // This measurement depends on fixed quantities only
+                    break;
 
                 int state_index = Jcolidx[ival];
 
@@ -1171,7 +1166,9 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
             }
         }
 
-        if(ival_calobject_warp < 0 &&
+        // Only the board observations have a calobject_warp gradient
+        if(imeas < Nmeas_boards &&
+           ival_calobject_warp < 0 &&
            Kpackedcw != NULL)
         {
             MSG("Unexpected jacobian structure. There's no calobject_warp gradient in measurement %d, but the user asked for it",
-- 
2.43.0


From f0a60c7116d7156e6010818cd67655c12c26143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 41/60] fix: projection_uncertainty() with locked intrinsics,
 extrinsics or without frames

---
 mrcal/model_analysis.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 6d48718..b6679d8 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1340,6 +1340,7 @@ else:                    we return an array of shape (...)
 
     else:
         slice_intrinsics_state = None
+        slice_intrinsics_arg   = None
 
     Nstate = mrcal.num_states(**optimization_inputs)
 
@@ -1444,12 +1445,12 @@ else:                    we return an array of shape (...)
         mrcal.pack_state(Kunpacked_cross_reprojection, **optimization_inputs)
     else:
         Kunpacked_cross_reprojection = None
-        if optimization_inputs.get('do_optimize_frames'):
+        if optimization_inputs.get('do_optimize_frames', rt_ref_frame is not None):
             if get_input('observations_point')              is not None or \
                get_input('observations_point_triangulated') is not None:
                 raise Exception(f"We have point observations that we are optimizing; only cross-reprojection uncertainty can work here. Have {method=}")
-            if rt_ref_frame is None and points is None:
-                raise Exception("Some frames or points must exist for the no-cross-reprojection uncertainty computation, but we don't have any")
+            if rt_ref_frame is None:
+                raise Exception("Some frames must exist for the no-cross-reprojection uncertainty computation, but we don't have any")
 
 
     # Now the extrinsics. I look at all the ones that correspond with the
@@ -1457,9 +1458,9 @@ else:                    we return an array of shape (...)
     # produce exactly one set of extrinsics. If the camera is moving, we may get
     # more than one. At this time I limit to myself to a consecutive block of
     # extrinsics vectors. Once this all works I can relax that requirement
-    ifcice = optimization_inputs['indices_frame_camintrinsics_camextrinsics']
+    ifcice = optimization_inputs.get('indices_frame_camintrinsics_camextrinsics')
     if ifcice is None: ifcice = np.zeros((0,3),dtype=np.int32)
-    ipcice = optimization_inputs['indices_point_camintrinsics_camextrinsics']
+    ipcice = optimization_inputs.get('indices_point_camintrinsics_camextrinsics')
     if ipcice is None: ipcice = np.zeros((0,3),dtype=np.int32)
     icice = nps.glue(ifcice[:,1:], ipcice[:,1:], axis=-2)
 
@@ -1491,8 +1492,12 @@ else:                    we return an array of shape (...)
         istate_extrinsics0 = mrcal.state_index_extrinsics(icam_extrinsics[0],
                                                           **optimization_inputs)
         Ncameras_extrinsics = rt_cam_ref.shape[0]
-        slice_extrinsics_state = slice(istate_extrinsics0,
-                                       istate_extrinsics0 + Ncameras_extrinsics*6)
+        if istate_extrinsics0 is not None:
+            slice_extrinsics_state = slice(istate_extrinsics0,
+                                           istate_extrinsics0 + Ncameras_extrinsics*6)
+        else:
+            # The extrinsics aren't being optimized
+            slice_extrinsics_state = None
 
 
     # shape (..., 2, Nstate)
-- 
2.43.0


From fb53aa5dd590a086474b20b0934dd423ea4309b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 42/60] fix: triangulate() uncertainty with locked distortions
 of a model that has none

---
 mrcal/triangulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index cd117ff..58d27ed 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -1514,11 +1514,10 @@ if optimization_inputs is None and q_observation_stdev is None:
             i0,i1 = None,None # everything by default
             has_core     = mrcal.lensmodel_metadata_and_config(optimization_inputs['lensmodel'])['has_core']
             Ncore        = 4 if has_core else 0
-            Ndistortions = mrcal.lensmodel_num_params(optimization_inputs['lensmodel']) - Ncore
             if not optimization_inputs.get('do_optimize_intrinsics_core', True):
                 i0 = Ncore
             if not optimization_inputs.get('do_optimize_intrinsics_distortions', True):
-                i1 = -Ndistortions
+                i1 = Ncore
             slice_optimized_intrinsics  = slice(i0,i1)
             if istate_i0 is not None:
                 # dp_triangulated_di0 = dp_triangulated_dv0              dvlocal0_di0
-- 
2.43.0


From 5836f511217f5a36b08055c0e6d2a4f789c9ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 43/60] fix: implied_Rt10__from_unprojections() with two or
 more leading dimensions and weights

---
 mrcal/model_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index b6679d8..27ddf8a 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -178,6 +178,7 @@ report a full Rt transformation with the t component set to 0
     p0 = nps.transpose(nps.clump(nps.mv( nps.atleast_dims(p0, -3),
                                          -1,-3),
                                  n=-2))
+    p0 = nps.clump(p0, n=p0.ndim-2)
     # shape (N,3)
     v1 = nps.clump(v1, n=v1.ndim-1)
 
-- 
2.43.0


From d6eabd364c46350e501a4149cb0c88a099941b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 44/60] fix: projection_diff() at infinity ignores the
 translation

---
 mrcal/model_analysis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 27ddf8a..c237bb4 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1849,6 +1849,10 @@ A tuple
                                                          focus_center = focus_center,
                                                          focus_radius = focus_radius)
 
+        if atinfinity:
+            # v is a direction, so the translation has no effect
+            Rt10 = np.array(Rt10, dtype=float)
+            Rt10[3,:] = 0
 
         q1 = mrcal.project( mrcal.transform_point_Rt(Rt10,
                                                      # shape (len(distance),Nheight,Nwidth,3)
@@ -1909,6 +1913,9 @@ A tuple
         Ncameras = len(v)
         # shape (Ncameras-1, 4,3)
         Rt10 = nps.cat(*[ get_Rt10(0,i) for i in range(1,Ncameras)])
+        if atinfinity:
+            # v is a direction, so the translation has no effect
+            Rt10[...,3,:] = 0
 
         # shape (Ncameras-1,len(distance),Nheight,Nwidth,2)
         grids = nps.cat(*[get_reprojections(q0, Rt10[i-1],
-- 
2.43.0


From bd06e5aba824245f4fba6f6e498931c661348459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 45/60] fix: stereo_pair_diff() of CAHVORE models failed; the
 caller's models are left alone

---
 mrcal/model_analysis.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index c237bb4..88d0807 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2062,20 +2062,23 @@ A tuple
     else:
         atinfinity = False
 
-    for model_pair in model_pairs:
-        for model in model_pair:
-            if not mrcal.lensmodel_metadata_and_config(model.intrinsics()[0])['noncentral']:
+    # The intrinsics of each camera in each pair. Possibly centralized, so I do
+    # NOT look at model.intrinsics() after this
+    intrinsics_pairs = [ [ model.intrinsics() for model in model_pair ] \
+                         for model_pair in model_pairs ]
+    for intrinsics_pair in intrinsics_pairs:
+        for i,(lensmodel,intrinsics_data) in enumerate(intrinsics_pair):
+            if not mrcal.lensmodel_metadata_and_config(lensmodel)['noncentral']:
                 continue
-            if not re.match("LENSMODEL_CAHVORE_",model.intrinsics()[0]):
+            if not re.match("LENSMODEL_CAHVORE_",lensmodel):
                 raise Exception("I have a noncentral model that I cannot centralize. unproject() isn't implemented yet in this case")
 
             # CAHVORE. I know how to centralize this. If we're looking at
             # infinity, then this is ok
-            if np.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
-                intrinsics_data = model.intrinsics()[1]
+            if nps.norm2(intrinsics_data[-3:]) < 1e-12 or atinfinity:
+                intrinsics_data = np.array(intrinsics_data)
                 intrinsics_data[-3:] = 0
-                model.intrinsics( intrinsics = (model.intrinsics()[0],
-                                                intrinsics_data) )
+                intrinsics_pair[i] = (lensmodel,intrinsics_data)
                 continue
             if not atinfinity:
                 raise Exception("I have a noncentral model. I can centralize it, but that's only valid at infinity")
@@ -2101,9 +2104,9 @@ A tuple
         mrcal.project( mrcal.transform_point_Rt(Rt10_Rt01_pairs[i][p],
                                                 distance *
                                                 mrcal.unproject(q,
-                                                                *model_pairs[p][i].intrinsics(),
+                                                                *intrinsics_pairs[p][i],
                                                                 normalize = True)),
-                       *model_pairs[p][1-i].intrinsics() )
+                       *intrinsics_pairs[p][1-i] )
 
     q0 = mrcal.sample_imager(gridn_width, gridn_height,
                              *imagersizes0)
-- 
2.43.0


From 3c2908ace399515969f33c30ecaef25dfbdd4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 46/60] fix: model_resolution__deg_pixel() of a single pixel
 failed

---
 mrcal/model_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 88d0807..b423cc8 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2249,7 +2249,7 @@ The scalar resolution in degrees/pixel
     lmax = (a+c)/2 + sqrt_discriminant
     lmin = (a+c)/2 - sqrt_discriminant
     # handle roundoff error
-    lmin[lmin < 1e-6] = 1e-6
+    lmin = np.maximum(lmin, 1e-6)
 
     # swap min/max since I took the reciprocal
     resolution_max_deg_pix = 1./np.sqrt(lmin) * 180./np.pi
-- 
2.43.0


From 3f40544a697deb0ffa99fa2c967d4e41ed1741ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 47/60] fix: image accessors with strides that are negative or
 not a multiple of the pixel size

---
 image.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/image.h b/image.h
index cc629b2..bc9ef79 100644
--- a/image.h
+++ b/image.h
@@ -59,6 +59,7 @@ extern "C" {
 //
 // mrcal_image_bgr_load() converts images to 24-bpp color
 
+#include <stddef.h>
 #include <stdint.h>
 #include <stdbool.h>
 
@@ -83,13 +84,14 @@ typedef struct                                                          \
 static inline                                                           \
 T* mrcal_image_ ## Tname ## _at(mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    /* the stride is in bytes, and it may be <0 or not a multiple of sizeof(T) */ \
+    return (T*)((char*)image->data + (ptrdiff_t)y*image->stride) + x;   \
 }                                                                       \
                                                                         \
 static inline                                                           \
 const T* mrcal_image_ ## Tname ## _at_const(const mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    return (const T*)((const char*)image->data + (ptrdiff_t)y*image->stride) + x; \
 }                                                                       \
                                                                         \
 static inline                                                           \
-- 
2.43.0


From 8b031e27cabe7f64ea745a13d9d133f0f0250b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 48/60] fix: stretching decreasing or constant 16-bit images to
 8 bits

---
 image.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/image.c b/image.c
index ea1b289..4a22826 100644
--- a/image.c
+++ b/image.c
@@ -383,8 +383,8 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            if      (x < min) min = x;
-            else if (x > max) max = x;
+            if (x < min) min = x;
+            if (x > max) max = x;
         }
     }
 
@@ -398,7 +398,8 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            row_out[j] = (uint8_t)(0.5f + ((float)(x - min) * 255.f / (float)max_min));
+            row_out[j] = max_min == 0 ? 0 :
+                (uint8_t)(0.5f + ((float)(x - min) * 255.f / (float)max_min));
         }
     }
 }
-- 
2.43.0


From 806a868f8c2f18d8c1b494236b94905369627b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 49/60] fix: writing .png and .jpg images with negative strides

---
 image.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/image.c b/image.c
index 4a22826..9b8390d 100644
--- a/image.c
+++ b/image.c
@@ -66,6 +66,28 @@ bool generic_save_png(const char* filename,
 {
     bool result = false;
 
+    // libpng can write arrays with stride >= width only. If the rows are stored
+    // differently (a flipped image, or one row repeated), I write a dense copy
+    const int        width_bytes = image->width*bits_per_pixel/8;
+    mrcal_image_void_t dense     = *image;
+    uint8_t*         buf         = NULL;
+    if(image->stride < width_bytes)
+    {
+        buf = malloc((size_t)width_bytes*image->height);
+        if(buf == NULL)
+        {
+            MSG("Could not malloc buffer for a dense copy of the image");
+            return false;
+        }
+        for(int i=0; i<image->height; i++)
+            memcpy(&buf[(ptrdiff_t)i*width_bytes],
+                   &((const uint8_t*)image->data)[(ptrdiff_t)i*image->stride],
+                   width_bytes);
+        dense.stride = width_bytes;
+        dense.data   = buf;
+    }
+    image = &dense;
+
     png_image pimage = { .version = PNG_IMAGE_VERSION,
                          .width   = image->width,
                          .height  = image->height,
@@ -83,6 +105,7 @@ bool generic_save_png(const char* filename,
 
 done:
     png_image_free(&pimage);
+    free(buf);
     return result;
 }
 
@@ -231,7 +254,8 @@ bool generic_save_jpg(const char* filename,
 
     JSAMPROW row_pointer[1];
     while (cinfo.next_scanline < cinfo.image_height) {
-        row_pointer[0] = &((uint8_t*)image->data)[cinfo.next_scanline * image->stride];
+        // image->stride may be <0, and cinfo.next_scanline is unsigned
+        row_pointer[0] = &((uint8_t*)image->data)[(ptrdiff_t)cinfo.next_scanline * image->stride];
         jpeg_write_scanlines(&cinfo, row_pointer, 1);
     }
 
-- 
2.43.0


From b4f2f3ac7ca2e1b7b87d1518cb59e0adc7ed030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 50/60] fix: color maps of negative floating-point numbers, and
 of wide ranges

---
 mrcal-genpywrap.py | 4 ++--
 stereo.c           | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mrcal-genpywrap.py b/mrcal-genpywrap.py
index d69e4f5..d8d4104 100644
--- a/mrcal-genpywrap.py
+++ b/mrcal-genpywrap.py
@@ -998,12 +998,12 @@ unsigned integers. The last row is the BGR color-mapped values.
                 (np.float32, np.uint8): body__apply_color_map \
                   .replace('{T}',     'float') \
                   .replace('{Tname}', 'float') \
-                  .replace('{T_min}', 'FLT_MIN') \
+                  .replace('{T_min}', '-FLT_MAX') \
                   .replace('{T_max}', 'FLT_MAX'),
                 (np.float64, np.uint8): body__apply_color_map \
                   .replace('{T}',     'double') \
                   .replace('{Tname}', 'double') \
-                  .replace('{T_min}',  'DBL_MIN') \
+                  .replace('{T_min}',  '-DBL_MAX') \
                   .replace('{T_max}',  'DBL_MAX'),
             },
 )
diff --git a/stereo.c b/stereo.c
index ec97040..79454a4 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1212,7 +1212,8 @@ gnuplot_color_formula(uint8_t* out,
             else if(*in_T >= in_max)                                    \
                 x = 1.0f;                                               \
             else                                                        \
-                x = (float)(*in_T - in_min) / (float)(in_max - in_min); \
+                x = (float)(((double)*in_T - (double)in_min) /          \
+                            ((double)in_max - (double)in_min));         \
                                                                         \
             if(!gnuplot_color_formula(&out_bgr->bgr[2], function_red,   x) || \
                !gnuplot_color_formula(&out_bgr->bgr[1], function_green, x) || \
@@ -1234,8 +1235,8 @@ DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
 DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
 DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
 
-DEFINE_mrcal_apply_color_map(float,    float,  FLT_MIN,   FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, DBL_MIN,   DBL_MAX)
+DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX)
+DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX)
 
 
 
-- 
2.43.0


From 12001e88bcdd3fcc82000edc4584c51b7f6e931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 51/60] fix: scale_focal__best_pinhole_fit() with points on the
 optical axis

---
 mrcal/image_transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index d39c316..772548a 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -142,8 +142,9 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
     scale = 1e6
     for p in normxy_edges:
         for ixy in range(2):
-            if p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
-            else:          scale = np.min((scale,normxy_min[ixy]/p[ixy]))
+            # p == 0 projects to the center with any scale
+            if   p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
+            elif p[ixy] < 0: scale = np.min((scale,normxy_min[ixy]/p[ixy]))
     return scale
 
 
-- 
2.43.0


From a5ea41c3975ec33d49fb87104f9b319d18405957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 52/60] fix: pinhole_model_for_reprojection() reports invalid
 shapes of fit

---
 mrcal/image_transforms.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 772548a..cd49d06 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -219,9 +219,7 @@ the input model.
                 # this is valid. nothing to do
                 pass
             else:
-                raise Exception("'fit' must be an array of shape (...,2) or one of ('corners','centers-horizontal','centers-vertical')",
-                      file=sys.stderr)
-                sys.exit(1)
+                raise Exception("'fit' must be an array of shape (...,2) or one of ('corners','centers-horizontal','centers-vertical')")
 
         scale_focal = mrcal.scale_focal__best_pinhole_fit(model_from, fit)
 
-- 
2.43.0


From 0b2783ff7d599759cb4f5d58fb7179fbd3e2d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 53/60] fix: pinhole_model_for_reprojection() scales images
 with a center at 0

---
 mrcal/image_transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index cd49d06..938af96 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -255,16 +255,16 @@ the input model.
         # Sanity check: cxy >> 1: ki+2*cxy*ki = ki*(1+2cxy) ~ 2*cxy*ki
         #                         2*cxy*ki - 1 ~ 2*cxy*ki
         #               -> kc ~ 2*cxy*ki /( 2 cxy ) = ki. Yes.
-        # Looks like I scale cx and cy separately.
+        # Looks like I scale cx and cy separately. And I look at kc*cxy directly:
+        # cx or cy could be 0
+        #   kc*cxy = ki*cxy + (ki-1)/2
         imagersize[0] = round(imagersize[0]*scale_image)
         imagersize[1] = round(imagersize[1]*scale_image)
         kfxy = scale_image
-        kcx  = (kfxy + 2.*cx*kfxy - 1.) / (2. * cx)
-        kcy  = (kfxy + 2.*cy*kfxy - 1.) / (2. * cy)
 
         intrinsics_data[:2] *= kfxy
-        intrinsics_data[2]  *= kcx
-        intrinsics_data[3]  *= kcy
+        intrinsics_data[2]   = kfxy*cx + (kfxy - 1.)/2.
+        intrinsics_data[3]   = kfxy*cy + (kfxy - 1.)/2.
 
     return \
         mrcal.cameramodel( intrinsics            = ('LENSMODEL_PINHOLE',intrinsics_data[:4]),
-- 
2.43.0


From 2edf25f2804486982de5b6bc955c86ad908cdb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 54/60] fix: image_transformation_map() with plane_d<0

---
 mrcal/image_transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 938af96..d4941a3 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -482,7 +482,9 @@ This array can be passed to mrcal.transform_image()
         # The homography definition. Derived in many places. For instance in
         # "Motion and structure from motion in a piecewise planar environment"
         # by Olivier Faugeras, F. Lustman.
-        A_to_from = plane_d * R_to_from + nps.outer(t_to_from, plane_n)
+        # I divide by plane_d instead of scaling everything by it: plane_d < 0 must
+        # not flip the direction of the vectors
+        A_to_from = R_to_from + nps.outer(t_to_from, plane_n) / plane_d
         A_from_to = np.linalg.inv(A_to_from)
         v = nps.matmult( v, nps.transpose(A_from_to) )
 
-- 
2.43.0


From 5acdb558b439b80e4ddf67017463761675e24131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 55/60] fix: align_procrustes_points_Rt01(): the centroids use
 the weights

The weights were applied when computing the rotation, but the centroids of the
two point clouds ignored them. So the result did not minimize the documented
cost: even a point with weight 0 affected it
---
 mrcal/utils.py | 16 ++++++++++++----
 poseutils.c    | 22 ++++++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index d98f16e..e65e93f 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -45,10 +45,18 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     p0 = nps.transpose(p0)
     p1 = nps.transpose(p1)
 
+    # The optimal R,t map the WEIGHTED mean of p1 to the weighted mean of p0
+    sum_weights = np.sum(weights)
+    if sum_weights == 0:
+        # No data. Poorly-defined problem. Return error
+        return np.zeros((4,3), dtype=float)
+    mean0 = np.sum(p0*weights, axis=-1) / sum_weights
+    mean1 = np.sum(p1*weights, axis=-1) / sum_weights
+
     # I process Mt instead of M to not need to transpose anything later, and to
     # end up with contiguous-memory results
-    Mt = nps.matmult(              (p0 - np.mean(p0, axis=-1)[..., np.newaxis])*weights,
-                      nps.transpose(p1 - np.mean(p1, axis=-1)[..., np.newaxis]))
+    Mt = nps.matmult(              (p0 - mean0[..., np.newaxis])*weights,
+                      nps.transpose(p1 - mean1[..., np.newaxis]))
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
@@ -69,7 +77,7 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     # Now that I have my optimal R, I compute the optimal t. From before:
     #
     #   t = mean(a) - R mean(b)
-    t = np.mean(p0, axis=-1)[..., np.newaxis] - nps.matmult( R, np.mean(p1, axis=-1)[..., np.newaxis] )
+    t = mean0[..., np.newaxis] - nps.matmult( R, mean1[..., np.newaxis] )
 
     return nps.glue( R, t.ravel(), axis=-2)
 
@@ -148,7 +156,7 @@ well-known direct method. See:
 
 We return a transformation that minimizes the sum 2-norm of the misalignment:
 
-    cost = sum( norm2( w[i] (a[i] - transform(b[i])) ))
+    cost = sum( w[i] norm2( a[i] - transform(b[i]) ))
 
 We return an Rt transformation to map points in set 1 to points in set 0.
 
diff --git a/poseutils.c b/poseutils.c
index 6c8f5b8..3dcfb12 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1620,17 +1620,31 @@ bool mrcal_align_procrustes_points_Rt01(// out
 {
     double pmean0[3] = {};
     double pmean1[3] = {};
+    double sum_weights = 0.;
 
+    // The optimal R,t map the WEIGHTED mean of p1 to the weighted mean of p0
     for(int i=0; i<N; i++)
+    {
+        const double w = (weights == NULL) ? 1. : weights[i];
+
         for(int j=0; j<3; j++)
         {
-            pmean0[j] += p0[i*3+j];
-            pmean1[j] += p1[i*3+j];
+            pmean0[j] += p0[i*3+j]*w;
+            pmean1[j] += p1[i*3+j]*w;
         }
+        sum_weights += w;
+    }
+    if(sum_weights == 0.)
+    {
+        // No data. Poorly-defined problem: report the potentially non-fatal
+        // error
+        Rt01[0] = 0.;
+        return false;
+    }
     for(int j=0; j<3; j++)
     {
-        pmean0[j] /= (double)N;
-        pmean1[j] /= (double)N;
+        pmean0[j] /= sum_weights;
+        pmean1[j] /= sum_weights;
     }
     if(!_align_procrustes_vectors_R01(Rt01,N,p0,p1,pmean0,pmean1,weights))
         return false;
-- 
2.43.0


From 8b2869fce685a1dd4f9d1e516b8eaf8fbf424fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 56/60] fix: align_procrustes_...(): detect singular inputs
 regardless of their scale

The singular values were compared to an absolute threshold. So collinear points
at a large scale weren't detected: an arbitrary rotation was returned. And
well-defined inputs at a small scale were reported as singular
---
 mrcal/utils.py | 10 ++++++----
 poseutils.c    |  5 ++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index e65e93f..9240fba 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -60,8 +60,9 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
-    # two isn't
-    if S[-2] < 1e-12:
+    # two isn't. The singular values scale with the input, so I look at their
+    # ratio. And this catches all the singular values being 0
+    if not S[-2] > 1e-12*S[0]:
         # Poorly-defined problem. Return error
         return np.zeros((4,3), dtype=float)
 
@@ -109,8 +110,9 @@ def _align_procrustes_vectors_R01(v0, v1, weights):
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
-    # two isn't
-    if S[-2] < 1e-12:
+    # two isn't. The singular values scale with the input, so I look at their
+    # ratio. And this catches all the singular values being 0
+    if not S[-2] > 1e-12*S[0]:
         # Poorly-defined problem. Return error
         return np.zeros((3,3), dtype=float)
 
diff --git a/poseutils.c b/poseutils.c
index 3dcfb12..9c9dbdd 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1550,7 +1550,10 @@ bool _align_procrustes_vectors_R01(// out
     // I look at the second-lowest singular value. One 0 singular value is OK
     // (the other two can uniquely define my 3D basis). But two isn't OK: the
     // basis is no longer unique
-    if(S[1] < 1e-12)
+    //
+    // The singular values scale with the input, so I look at their ratio. And
+    // this catches all the singular values being 0
+    if(!(S[1] > 1e-12*S[0]))
     {
         // Poorly-defined problem
         //
-- 
2.43.0


From f069bb166bb6cb39eae996260e1891544b64899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 57/60] fix: align_procrustes_...(): accept non-contiguous
 weights

Inputs that aren't contiguous are handled by the python implementation, but only
p0,p1 (or v0,v1) were checked: non-contiguous weights resulted in an exception
---
 mrcal/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 9240fba..7726064 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -192,7 +192,8 @@ This is not a valid Rt transform, and is used to signal an error.
     """
     # Use the python implementation when the data isn't contiguous
     if not (p0.flags['C_CONTIGUOUS'] and \
-            p1.flags['C_CONTIGUOUS']):
+            p1.flags['C_CONTIGUOUS'] and \
+            (weights is None or weights.flags['C_CONTIGUOUS'])):
         return _align_procrustes_points_Rt01_python(p0, p1, weights=weights)
 
     if weights is None:
@@ -266,7 +267,8 @@ This is not a valid rotation, and is used to signal an error.
 
     # Use the python implementation when the data isn't contiguous
     if not (v0.flags['C_CONTIGUOUS'] and \
-            v1.flags['C_CONTIGUOUS']):
+            v1.flags['C_CONTIGUOUS'] and \
+            (weights is None or weights.flags['C_CONTIGUOUS'])):
         return _align_procrustes_vectors_R01_python(v0, v1, weights=weights)
 
     if weights is None:
-- 
2.43.0


From d877c7f886e821548161b9502a63cf4fa007fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 58/60] fix: CHOLMOD_factorization.solve_xt_JtJ_bt(): no
 division by 0

Passing in an array with a trailing dimension of length 0 would crash the process
with SIGFPE, instead of reporting the error
---
 mrcal-pywrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index a670a3c..3e6aff9 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -502,7 +502,6 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
 #undef SYS_NAME
 
     int Nstate = (int)PyArray_DIMS((PyArrayObject*)Py_bt)[ndim-1];
-    int Nrhs   = (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
 
     if( self->factorization->n != (unsigned)Nstate )
     {
@@ -523,6 +522,8 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
     }
 
     // Alright. b looks good-enough to use
+    const int Nrhs =
+        Nstate == 0 ? 0 : (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
     if( 0 == Nrhs )
     {
         // Degenerate input (0 columns). Just return it, and I'm done
-- 
2.43.0


From 6b5317f38389a89c6fdb38114b677a310dd72c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 59/60] fix: CHOLMOD_factorization: reject arrays in a
 non-native byte order

The documentation says that anything that doesn't look right results in an
exception. Byte-swapped arrays were interpreted as native ones, with garbage
produced silently
---
 mrcal-pywrap.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 3e6aff9..bc6e970 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -357,6 +357,11 @@ CHOLMOD_factorization_init(CHOLMOD_factorization* self, PyObject* args, PyObject
         BARF("J."#x " must have dtype: " #dtype);                       \
         goto done;                                                      \
     }                                                                   \
+    if( !PyArray_ISNOTSWAPPED((PyArrayObject*)Py_ ## x) )               \
+    {                                                                   \
+        BARF("J."#x " must use the native byte order");                 \
+        goto done;                                                      \
+    }                                                                   \
     if( !PyArray_IS_C_CONTIGUOUS((PyArrayObject*)Py_ ## x) )            \
     {                                                                   \
         BARF("J."#x " must live in contiguous memory");                 \
@@ -515,6 +520,11 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
         BARF("bt must have dtype=float");
         goto done;
     }
+    if( !PyArray_ISNOTSWAPPED((PyArrayObject*)Py_bt) )
+    {
+        BARF("bt must use the native byte order");
+        goto done;
+    }
     if( !PyArray_IS_C_CONTIGUOUS((PyArrayObject*)Py_bt) )
     {
         BARF("bt must live in contiguous memory");
-- 
2.43.0


From b651fe27c980eb9b84d2675320f11fa42c752af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 60/60] fix: make_perfect_observations(),
 hypothesis_board_corner_positions() without rt_cam_ref

The optimization accepts rt_cam_ref=None when all the cameras are at the
reference, but these functions failed with such optimization_inputs
---
 mrcal/synthetic_data.py | 7 ++++++-
 mrcal/utils.py          | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index f739408..aede253 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -688,10 +688,15 @@ None
         # shape (Nobservations,3)
         pref = optimization_inputs['points'][ indices_point_camintrinsics_camextrinsics[:,0] ]
 
+        # rt_cam_ref may be omitted if all the cameras are at the reference
+        rt_cam_ref = optimization_inputs.get('rt_cam_ref')
+        if rt_cam_ref is None:
+            rt_cam_ref = np.zeros((0,6), dtype=float)
+
         # shape (Nobservations,4,3)
         Rt_cam_ref = \
             nps.glue( mrcal.identity_Rt(),
-                      mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref']),
+                      mrcal.Rt_from_rt(rt_cam_ref),
                       axis = -3 ) \
             [ indices_point_camintrinsics_camextrinsics[:,2]+1 ]
 
diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7726064..e89a737 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -556,9 +556,13 @@ RETURNED VALUE
     Rt_ref_frame = \
         mrcal.Rt_from_rt( optimization_inputs['rt_ref_frame'] )\
         [ indices_frame_camintrinsics_camextrinsics[:,0] ]
+    # rt_cam_ref may be omitted if all the cameras are at the reference
+    rt_cam_ref = optimization_inputs.get('rt_cam_ref')
+    if rt_cam_ref is None:
+        rt_cam_ref = np.zeros((0,6), dtype=float)
     Rt_cam_ref = \
         nps.glue( mrcal.identity_Rt(),
-                  mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref']),
+                  mrcal.Rt_from_rt(rt_cam_ref),
                   axis = -3 ) \
         [ indices_frame_camintrinsics_camextrinsics[:,2]+1 ]
 
-- 
2.43.0

