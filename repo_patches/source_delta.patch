From 422c18b67db2844e0a81d3ae073359da6272995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 001/120] fix: mrcal_project_pinhole() writes each projected
 point to its own output

---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..3ce40fa 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -1455,8 +1455,8 @@ void mrcal_project_pinhole( // output
     for(int i=0; i<N; i++)
     {
         double pz_recip = 1. / v[i].z;
-        q->x = v[i].x*pz_recip * fx + cx;
-        q->y = v[i].y*pz_recip * fy + cy;
+        q[i].x = v[i].x*pz_recip * fx + cx;
+        q[i].y = v[i].y*pz_recip * fy + cy;
 
         if(dq_dv)
         {
-- 
2.43.0


From d345f5c7d346551af7d141d38a44f6651d178369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 002/120] fix: mrcal_project() reports dq_dp for each point if
 dq_dintrinsics isn't requested

---
 mrcal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 3ce40fa..047bfe8 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2903,6 +2903,10 @@ bool _mrcal_project_internal( // out
                      intrinsics, NULL, &frame, NULL, true,
                      lensmodel, precomputed,
                      0.0, 0,0);
+
+            // advance
+            if(dq_dp != NULL)
+                dq_dp = &dq_dp[2];
         }
         return true;
     }
-- 
2.43.0


From 4abbdb3753d68245542ce344fe8e20389aab8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 003/120] fix: a failed CAHVORE projection clears both rows of
 each gradient

---
 mrcal.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 047bfe8..7b4b8e0 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2505,10 +2505,10 @@ void _project_point( // outputs
             memset(q, 0, sizeof(*q));
             if(p_dq_dfxy)               memset(p_dq_dfxy,               0, sizeof(*p_dq_dfxy));
             if(p_dq_dintrinsics_nocore) memset(p_dq_dintrinsics_nocore, 0, sizeof(*p_dq_dintrinsics_nocore) * 2 * (Nintrinsics-4));
-            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera));
-            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera));
-            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe));
-            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe));
+            if(dq_drcamera)             memset(dq_drcamera,             0, sizeof(*dq_drcamera) * 2);
+            if(dq_dtcamera)             memset(dq_dtcamera,             0, sizeof(*dq_dtcamera) * 2);
+            if(dq_drframe)              memset(dq_drframe,              0, sizeof(*dq_drframe) * 2);
+            if(dq_dtframe)              memset(dq_dtframe,              0, sizeof(*dq_dtframe) * 2);
 
         }
     }
-- 
2.43.0


From 80f9532130b1569530cc0f9cbfc3c224f790257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 004/120] fix: CAHVORE projection gradients at the optical axis
 include the r0 term

---
 cahvore.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cahvore.cc b/cahvore.cc
index 686d056..37d8ad5 100644
--- a/cahvore.cc
+++ b/cahvore.cc
@@ -144,7 +144,8 @@ bool _project_cahvore_internals( // outputs
         *pdistorted = uu + vv;
     }
     else
-        *pdistorted = p;
+        // The limit of the above as theta -> 0: chi -> 0, mu -> r0, zetap -> zeta
+        *pdistorted = u + ll * (r0 + 1.);
     return true;
 }
 
-- 
2.43.0


From a9551007e374310684736c6f0cf5849e020ffc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 005/120] fix: mrcal_unproject() reports NaN in every component
 if it fails

---
 mrcal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal.c b/mrcal.c
index 7b4b8e0..1a1359e 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3264,6 +3264,7 @@ bool _mrcal_unproject_internal( // out
             double nan = strtod("NAN", NULL);
             out->xyz[0] = nan;
             out->xyz[1] = nan;
+            out->xyz[2] = nan;
         }
         else
         {
-- 
2.43.0


From 4d15ab835f89e4bfd3a0a21bdd6420438519367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 006/120] fix: unproject(get_gradients=True, out=...) accepts a
 tuple, and ignores what was in it

---
 mrcal/projections.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mrcal/projections.py b/mrcal/projections.py
index f777533..10811dc 100644
--- a/mrcal/projections.py
+++ b/mrcal/projections.py
@@ -304,7 +304,7 @@ if get_gradients: we return a tuple:
                     not any(np.array(out[2].shape[:-len(dv_di_shape)]) - 1)):
                 raise Exception(f"Shape of out[2] doesn't match broadcasted shape for dv_di. Wanted {dv_di_shape}, but got {out[2].shape}")
             dv_di = out[2]
-            dv_di *= 0
+            dv_di[...] = 0
 
         # dv/df
         dv_di[..., :2] += nps.dummy((cxy - q)/fxy, -2) * dv_dq
@@ -378,8 +378,7 @@ if get_gradients: we return a tuple:
         dv_dq = nps.transpose(np.linalg.solve( nps.transpose(dq_du),
                                                nps.transpose(dv_du) ))
         if out is not None:
-            out[1] *= 0.
-            out[1] += dv_dq
+            out[1][...] = dv_dq
             dv_dq = out[1]
 
 
-- 
2.43.0


From 18cb47e36c8d1bc96127f95da0db546273dd6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 007/120] fix: unproject() of CAHVORE doesn't negate a
 solution: the projection isn't symmetric

---
 mrcal.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index 1a1359e..149d4d1 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3276,7 +3276,12 @@ bool _mrcal_unproject_internal( // out
             mrcal_unproject_stereographic((mrcal_point3_t*)out, NULL,
                                           (mrcal_point2_t*)out, 1,
                                           intrinsics);
-            if(!model_supports_projection_behind_camera(lensmodel) && out->xyz[2] < 0.0)
+            // Most models that don't project behind the camera have
+            // project(v) = project(-v), so we use the solution in front of the
+            // camera. CAHVORE does NOT have this symmetry: negating v would
+            // give us a vector that does not project to q
+            if(lensmodel->type != MRCAL_LENSMODEL_CAHVORE &&
+               !model_supports_projection_behind_camera(lensmodel) && out->xyz[2] < 0.0)
             {
                 out->xyz[0] *= -1.0;
                 out->xyz[1] *= -1.0;
-- 
2.43.0


From 637f47f243bdf2ce506dcd34695dc414db86f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 008/120] fix: mrcal_compose_rt_full(inverted0) doesn't need
 dt_dt1 to report dt_dt0

---
 poseutils.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/poseutils.c b/poseutils.c
index 6c8f5b8..2c25b28 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -861,15 +861,22 @@ void mrcal_compose_rt_full( // output
         double t10[3] = { rt1[0+3] - rt0[0+3],
                           rt1[1+3] - rt0[1+3],
                           rt1[2+3] - rt0[2+3] };
+        double dt_t10[9];
         mrcal_rotate_point_r_full( &P1(rt_out,3), rt_out_stride0,
                                    dt_r0, dt_r0_stride0, dt_r0_stride1,
-                                   dt_t1, dt_t1_stride0, dt_t1_stride1,
+                                   dt_t10, -1, -1,
 
                                    rt0, -1,
                                    t10, -1,
 
                                    true );
 
+        // any of the gradients may be NULL, independently of the others
+        if(dt_t1 != NULL)
+            for(int i=0; i<3; i++)
+                for(int j=0; j<3; j++)
+                    P2(dt_t1,i,j) = dt_t10[3*i+j];
+
         // dt01/dr1 = 0
         if(dt_r1 != NULL)
             for(int i=0; i<3; i++)
@@ -880,7 +887,7 @@ void mrcal_compose_rt_full( // output
         if(dt_t0 != NULL)
             for(int i=0; i<3; i++)
                 for(int j=0; j<3; j++)
-                    P2(dt_t0,i,j) = -P2(dt_t1,i,j);
+                    P2(dt_t0,i,j) = -dt_t10[3*i+j];
     }
     else if(!inverted0 && inverted1)
     {
-- 
2.43.0


From de51c67b086b25fbdc4aabf5ec2f2c85f05d83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 009/120] fix: optimizer_callback() returns J with all its
 columns, even if the last variables aren't observed

---
 mrcal-pywrap.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 86dc537..adb44ca 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -37,10 +37,16 @@
 // adds a reference to P,I,X, unless an error is reported
 static PyObject* csr_from_cholmod_sparse( PyObject* P,
                                           PyObject* I,
-                                          PyObject* X )
+                                          PyObject* X,
+                                          int Nrows,
+                                          int Ncols)
 {
     // I do the Python equivalent of this;
-    // scipy.sparse.csr_matrix((data, indices, indptr))
+    // scipy.sparse.csr_matrix((data, indices, indptr), (Nrows,Ncols))
+    //
+    // The shape must be given: if it isn't, the number of columns is inferred
+    // from the biggest index that is present. This would be wrong if the last
+    // state variables don't affect any of the measurements
 
 
     PyObject* result = NULL;
@@ -62,8 +68,10 @@ static PyObject* csr_from_cholmod_sparse( PyObject* P,
     // Here I'm assuming specific types in my cholmod arrays. I tried to
     // static_assert it, but internally cholmod uses void*, so I can't do that
     PyObject* MatrixDef = PyTuple_Pack(3, X, I, P);
-    args                = PyTuple_Pack(1, MatrixDef);
+    args                = Py_BuildValue("(O(ii))", MatrixDef, Nrows, Ncols);
     Py_DECREF(MatrixDef);
+    if(args == NULL)
+        goto done; // reuse already-set error
 
     if(NULL == (result = PyObject_CallObject(method, args)))
         goto done; // reuse already-set error
@@ -1997,7 +2005,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
                 {
                     jacobian = csr_from_cholmod_sparse((PyObject*)P,
                                                        (PyObject*)I,
-                                                       (PyObject*)X);
+                                                       (PyObject*)X,
+                                                       Nmeasurements, Nstate);
                     if(jacobian == NULL)
                     {
                         // reuse the existing error
-- 
2.43.0


From 599d6e40bf4cea5d0e477a76e80a998dfda780d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 010/120] fix: ingest_packed_state() ingests partial
 intrinsics, and points if none of them are fixed

---
 mrcal/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7b19378..5316a50 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1153,8 +1153,6 @@ None
     points         = optimization_inputs.get("points")
     calobject_warp = optimization_inputs.get("calobject_warp")
 
-    Npoints_fixed  = optimization_inputs.get('Npoints_fixed', 0)
-
     Nvars_intrinsics     = mrcal.num_states_intrinsics    (**optimization_inputs)
     Nvars_extrinsics     = mrcal.num_states_extrinsics    (**optimization_inputs)
     Nvars_frames         = mrcal.num_states_frames        (**optimization_inputs)
@@ -1181,17 +1179,18 @@ None
         lensmodel    = optimization_inputs['lensmodel']
         has_core     = mrcal.lensmodel_metadata_and_config(lensmodel)['has_core']
         Ncore        = 4 if has_core else 0
-        Ndistortions = mrcal.lensmodel_num_params(lensmodel) - Ncore
 
         do_optimize_intrinsics_core        = optimization_inputs.get('do_optimize_intrinsics_core',        True)
         do_optimize_intrinsics_distortions = optimization_inputs.get('do_optimize_intrinsics_distortions', True)
         if not do_optimize_intrinsics_core:
             iunpacked0 = Ncore
         if not do_optimize_intrinsics_distortions:
-            iunpacked1 = -Ndistortions
+            iunpacked1 = Ncore
 
-        intrinsics[:, iunpacked0:iunpacked1].ravel()[:] = \
-            b[ ivar0:Nvars_intrinsics ]
+        # NOT ravel() in the destination: if we're not optimizing all of the
+        # intrinsics, this slice isn't contiguous, and ravel() would make a copy
+        intrinsics[:, iunpacked0:iunpacked1] = \
+            b[ ivar0:ivar0+Nvars_intrinsics ].reshape(len(intrinsics),-1)
 
     ivar0 = mrcal.state_index_extrinsics(0, **optimization_inputs)
     if ivar0 is not None:
@@ -1203,7 +1202,7 @@ None
 
     ivar0 = mrcal.state_index_points(0, **optimization_inputs)
     if ivar0 is not None:
-        points.ravel()[:-Npoints_fixed*3] = b[ivar0:ivar0+Nvars_points]
+        points.ravel()[:Nvars_points] = b[ivar0:ivar0+Nvars_points]
 
     ivar0 = mrcal.state_index_calobject_warp(**optimization_inputs)
     if ivar0 is not None:
-- 
2.43.0


From bd91a97e59c3bd89024495c4eabbb2f857e798a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 011/120] fix: state/measurement layout functions and
 pack/unpack_state() accept the explicit dimensions they document

---
 mrcal-pywrap.c | 54 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index adb44ca..fb57b4c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1496,12 +1496,17 @@ static bool _handle_renamed(PyArrayObject** old, const char* name_old,
 static PyObject* _optimization_inputs_known_keys_frozenset;
 //  Replace the kwargs to keep only those that are known. The unknown ones that
 //  are not null trigger an error. This is intended for forwards compatibility
+//
+//  keywords_extra are the NULL-terminated names of the arguments of the calling
+//  function that aren't in the optimization inputs. These are known too. May be
+//  NULL
 static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
-                                                      bool* need_decref_kwargs)
+                                                      bool* need_decref_kwargs,
+                                                      char** keywords_extra)
 {
     *need_decref_kwargs = false;
 
-    if(!PyDict_Check(*kwargs))
+    if(*kwargs == NULL || !PyDict_Check(*kwargs))
         return true;
 
     PyObject* kwargs_new = PyDict_New();
@@ -1524,6 +1529,13 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
             Py_DECREF(kwargs_new);
             return false;
         }
+        if(!contains && keywords_extra != NULL && PyUnicode_Check(key))
+            for(char** keyword = keywords_extra; *keyword != NULL; keyword++)
+                if(0 == PyUnicode_CompareWithASCIIString(key, *keyword))
+                {
+                    contains = 1;
+                    break;
+                }
         if(contains)
         {
             if(0 != PyDict_SetItem(kwargs_new, key, value))
@@ -1594,7 +1606,7 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, NULL))
         goto done;
 
     int calibration_object_height_n = -1;
@@ -2221,8 +2233,6 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     OPTIMIZE_ARGUMENTS_OPTIONAL(ARG_DEFINE);
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int i = -1;
 
@@ -2232,6 +2242,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     int Npoints             = -1;
     int Nobservations_board = -1;
     int Nobservations_point = -1;
+    int calibration_object_width_n  = -1;
+    int calibration_object_height_n = -1;
 
     char* keywords[] = { (char*)argname,
                          "Ncameras_intrinsics",
@@ -2240,17 +2252,24 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                          "Npoints",
                          "Nobservations_board",
                          "Nobservations_point",
+                         "calibration_object_width_n",
+                         "calibration_object_height_n",
                          OPTIMIZE_ARGUMENTS_REQUIRED(NAMELIST)
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    // argname may be NULL
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs,
+                                                  argname != NULL ? &keywords[0] : &keywords[1]))
+        goto done;
+
     // needs to be big-enough to store the largest-possible called_function
 #define CALLED_FUNCTION_BUFFER "123456789012345678901234567890123456789012345678901234567890"
     char arg_string[] =
         "i"
         "|$" // everything is kwarg-only and optional. I apply logic down the
              // line to get what I need
-        "iiiiii"
+        "iiiiiiii"
         OPTIMIZE_ARGUMENTS_REQUIRED(PARSECODE)
         OPTIMIZE_ARGUMENTS_OPTIONAL(PARSECODE)
         ":mrcal." CALLED_FUNCTION_BUFFER;
@@ -2276,6 +2295,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2294,6 +2315,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2334,13 +2357,9 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     if(Nobservations_board < 0) Nobservations_board = IS_NULL(observations_board)    ? 0 : PyArray_DIMS(observations_board)    [0];
     if(Nobservations_point < 0) Nobservations_point = IS_NULL(observations_point)    ? 0 : PyArray_DIMS(observations_point)    [0];
 
-    int calibration_object_height_n = -1;
-    int calibration_object_width_n  = -1;
-    if( Nobservations_board > 0 )
-    {
-        calibration_object_height_n = PyArray_DIMS(observations_board)[1];
-        calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
-    }
+    const bool have_boards = Nobservations_board > 0 && !IS_NULL(observations_board);
+    if(calibration_object_height_n < 0) calibration_object_height_n = have_boards ? PyArray_DIMS(observations_board)[1] : 0;
+    if(calibration_object_width_n  < 0) calibration_object_width_n  = have_boards ? PyArray_DIMS(observations_board)[2] : 0;
 
 
     mrcal_problem_selections_t problem_selections = CONSTRUCT_PROBLEM_SELECTIONS();
@@ -3441,8 +3460,6 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
     PyArrayObject* b = NULL;
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
-        goto done;
 
     int Ncameras_intrinsics = -1;
     int Ncameras_extrinsics = -1;
@@ -3462,6 +3479,9 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
 
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, keywords))
+        goto done;
+
 #define UNPACK_STATE "unpack_state"
     char arg_string[] =
         "O&"
@@ -3563,7 +3583,7 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
 
     double* x = (double*)PyArray_DATA(b);
     if(pack)
-        for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
+        for(int i=0; Nstate>0 && i<PyArray_SIZE(b)/Nstate; i++)
         {
             mrcal_pack_solver_state_vector( x,
                                             Ncameras_intrinsics, Ncameras_extrinsics,
@@ -3572,7 +3592,7 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
             x = &x[Nstate];
         }
     else
-        for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
+        for(int i=0; Nstate>0 && i<PyArray_SIZE(b)/Nstate; i++)
         {
             mrcal_unpack_solver_state_vector( x,
                                               Ncameras_intrinsics, Ncameras_extrinsics,
-- 
2.43.0


From e8b97de4383ec82f07189158930dd6567ee14b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 012/120] fix: corresponding_icam_extrinsics() reports an error
 if the camera isn't observed or an index is out of bounds

---
 mrcal.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 149d4d1..a479b92 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3906,6 +3906,8 @@ static
 bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, int i,
                                             int* icam_map_to_extrinsics,
                                             int* icam_map_to_intrinsics,
+                                            int Ncameras_intrinsics,
+                                            int Ncameras_extrinsics,
                                             const char* what)
 {
     int icam_intrinsics = icam->intrinsics;
@@ -3913,6 +3915,15 @@ bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, in
 
     if(icam_extrinsics < 0) icam_extrinsics = -1;
 
+    if(icam_intrinsics < 0 || icam_intrinsics >= Ncameras_intrinsics ||
+       icam_extrinsics >= Ncameras_extrinsics)
+    {
+        MSG("Cannot compute icam_extrinsics. %s observation %d has out-of-bounds icam_intrinsics,icam_extrinsics %d,%d",
+            what, i,
+            icam_intrinsics, icam_extrinsics);
+        return false;
+    }
+
     if(icam_map_to_intrinsics[icam_extrinsics+1] == -100)
         icam_map_to_intrinsics[icam_extrinsics+1] = icam_intrinsics;
     else if(icam_map_to_intrinsics[icam_extrinsics+1] != icam_intrinsics)
@@ -3964,15 +3975,32 @@ bool mrcal_corresponding_icam_extrinsics(// out
         if(!_corresponding_icam_extrinsics__check( &observations_board[i].icam, i,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    "board"))
             return false;
     for(int i=0; i<Nobservations_point; i++)
         if(!_corresponding_icam_extrinsics__check( &observations_point[i].icam, i,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    "point"))
             return false;
 
+    if(icam_map_to_extrinsics[icam_intrinsics] == -100)
+    {
+        // No observations of this camera. If nothing has extrinsics, this must
+        // be the camera at the reference. Otherwise I can't know
+        if(Ncameras_extrinsics > 0)
+        {
+            MSG("Cannot compute icam_extrinsics. icam_intrinsics=%d has no observations",
+                icam_intrinsics);
+            return false;
+        }
+        icam_map_to_extrinsics[icam_intrinsics] = -1;
+    }
+
     *icam_extrinsics = icam_map_to_extrinsics[icam_intrinsics];
 
     return true;
-- 
2.43.0


From 2a25b8c0fd9f7588f51a365b70c1b5c5ecbeb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 013/120] fix: mrcal_lensmodel_from_name() reports unusable
 configurations as invalid, instead of crashing later

---
 mrcal.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index a479b92..ca4d5a5 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -12,6 +12,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <inttypes.h>
+#include <limits.h>
 
 #include <dogleg.h>
 #include <assert.h>
@@ -139,6 +140,31 @@ static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_
         config_str[pos] == '\0';
 }
 
+// The parsed configuration must describe a model that can be used. I check this
+// at parsing time, so that unusable lensmodel strings produce an error, instead
+// of crashing later
+static bool LENSMODEL_CAHVORE__config_is_valid( const mrcal_LENSMODEL_CAHVORE__config_t* config, const char* config_str)
+{
+    return isfinite(config->linearity);
+}
+static bool LENSMODEL_SPLINED_STEREOGRAPHIC__config_is_valid( const mrcal_LENSMODEL_SPLINED_STEREOGRAPHIC__config_t* config, const char* config_str)
+{
+    // All the fields are uint16_t. sscanf() doesn't report values that don't fit
+    for(const char* p = strchr(config_str, '='); p != NULL; p = strchr(&p[1], '='))
+        if(!('0' <= p[1] && p[1] <= '9') ||
+           strtoul(&p[1], NULL, 10) > UINT16_MAX)
+            return false;
+
+    return
+        (config->order == 2 || config->order == 3)  &&
+        // each spline segment needs order+1 control points
+        config->Nx >= config->order+1               &&
+        config->Ny >= config->order+1               &&
+        // mrcal_lensmodel_num_params() must fit into an int
+        (int64_t)config->Nx * (int64_t)config->Ny * 2 + 4 <= INT_MAX &&
+        0 < config->fov_x_deg && config->fov_x_deg < 360;
+}
+
 const char* const* mrcal_supported_lensmodel_names( void )
 {
 #define NAMESTRING_NOCONFIG(s,n)                  #s,
@@ -195,7 +221,8 @@ bool mrcal_lensmodel_from_name( // output
                                                                         \
                 const char* config_str = &name[len_s];                  \
                                                                         \
-                if(s##__scan_model_config(config, config_str))          \
+                if(s##__scan_model_config(config, config_str) &&        \
+                   s##__config_is_valid(  config, config_str))          \
                     return true;                                        \
                                                                         \
                 *lensmodel = (mrcal_lensmodel_t){.type = MRCAL_LENSMODEL_INVALID_BADCONFIG}; \
-- 
2.43.0


From 6323e231b7090095f63069694abf5f057712b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 014/120] fix: a copy of a cameramodel has usable
 optimization_inputs

---
 mrcal/cameramodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index ae8a8cb..7289e73 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -875,7 +875,7 @@ ARGUMENTS
                     self._valid_intrinsics_region = None
 
                 if file_or_model._optimization_inputs_string is not None:
-                    self._optimization_inputs_string = str(file_or_model._optimization_inputs_string)
+                    self._optimization_inputs_string = bytes(file_or_model._optimization_inputs_string)
                 else:
                     self._optimization_inputs_string = None
 
-- 
2.43.0


From c33868968cb8278f230efad193f4242451018429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 015/120] fix: optimization_inputs_reset() clears
 icam_intrinsics, so that the written model is readable

---
 mrcal/cameramodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 7289e73..30ca9ed 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1956,6 +1956,8 @@ RETURNED VALUE
 None
         '''
         self._optimization_inputs_string = None
+        self._icam_intrinsics            = None
+        self._icam_extrinsics            = None
 
 
     def _optimization_inputs_match(self, other_model):
-- 
2.43.0


From 471830d283dcc06947bb965f1ad003897d778e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 016/120] fix: mrcal_write_cameramodel_file() writes the values
 to full precision, and reports write errors

---
 mrcal.c | 11 ++++++++---
 types.h |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index ca4d5a5..124057f 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6720,12 +6720,12 @@ bool mrcal_write_cameramodel_file(const char* filename,
     fprintf(fp, "  'lensmodel':  '%s',\n", lensmodel_string);
     fprintf(fp, "  'intrinsics': [ ");
     for(int i=0; i<Nparams; i++)
-        fprintf(fp, "%f, ", cameramodel->intrinsics[i]);
+        fprintf(fp, "%.10g, ", cameramodel->intrinsics[i]);
     fprintf(fp, "],\n");
     fprintf(fp, "  'imagersize': [ %u, %u ],\n",
             cameramodel->imagersize[0],
             cameramodel->imagersize[1]);
-    fprintf(fp, "  'extrinsics': [ %f, %f, %f, %f, %f, %f ]\n",
+    fprintf(fp, "  'extrinsics': [ %.10g, %.10g, %.10g, %.10g, %.10g, %.10g ]\n",
             cameramodel->rt_cam_ref[0],
             cameramodel->rt_cam_ref[1],
             cameramodel->rt_cam_ref[2],
@@ -6738,7 +6738,12 @@ bool mrcal_write_cameramodel_file(const char* filename,
 
  done:
     if(fp != NULL)
-        fclose(fp);
+    {
+        if(ferror(fp))
+            result = false;
+        if(0 != fclose(fp))
+            result = false;
+    }
     return result;
 }
 
diff --git a/types.h b/types.h
index f551331..a799665 100644
--- a/types.h
+++ b/types.h
@@ -68,7 +68,7 @@ static_assert(sizeof(uint16_t) == sizeof(unsigned short int), "I need a short to
 // Configuration for CAHVORE. These are given as an an
 // "X macro": https://en.wikipedia.org/wiki/X_Macro
 #define MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_, cookie) \
-    _(linearity,    double, "d", ".2f", "lf", , cookie)
+    _(linearity,    double, "d", ".10g", "lf", , cookie)
 typedef struct
 {
     MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(_MRCAL_ITEM_DEFINE_ELEMENT, )
-- 
2.43.0


From cea9b873abd94631c54fd04efdbb5685cc9af1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 017/120] fix: the C cameramodel reader refuses imagersize
 values that don't fit, and any that are 0

---
 cameramodel-parser.re | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cd170da..3ad5eb8 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 
 #include "mrcal.h"
@@ -217,8 +218,9 @@ static bool ingest_uint_consume_ignorable(void* out0, int i,
         char tok[N+1];
         memcpy(tok, s, N);
         tok[N] = '\0';
-        int si = atoi(tok);
-        if( N == 0 || si < 0 )
+        // strtol() saturates at LONG_MAX, which is out-of-range here
+        const long si = strtol(tok, NULL, 10);
+        if( N == 0 || si < 0 || si > INT_MAX )
         {
             MSG("Error parsing unsigned int for %s at %ld. String: '%s'",
                 what, (long int)(*pYYCURSOR-start_file), tok);
@@ -640,7 +642,8 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
     if(!(model_not_intrinsics.lensmodel.type >= 0 &&
          did_read_intrinsics &&
          model_not_intrinsics.rt_cam_ref[0] != DBL_MAX &&
-         model_not_intrinsics.imagersize[0] > 0))
+         model_not_intrinsics.imagersize[0] > 0 &&
+         model_not_intrinsics.imagersize[1] > 0))
     {
         MSG("Incomplete cameramodel. Need keys: lensmodel, intrinsics, rt_cam_ref/extrinsics, imagersize");
         if(model_need_dealloc)
-- 
2.43.0


From 711c81403bfe4e3b34c3ddf27fa1117ffc15572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 018/120] fix: mrcal_cameramodel_converter() doesn't free what
 it did not allocate, and checks the number of intrinsics

---
 python-cameramodel-converter.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python-cameramodel-converter.c b/python-cameramodel-converter.c
index dedc677..7626975 100644
--- a/python-cameramodel-converter.c
+++ b/python-cameramodel-converter.c
@@ -71,6 +71,8 @@ int mrcal_cameramodel_converter(PyObject*             py_model,
 
     PyObject* call_result = NULL;
 
+    // On failure I free(*model) below. Whatever the caller has there isn't mine
+    *model = NULL;
 
     if(py_model == Py_None)
         *model = NULL;
@@ -109,6 +111,11 @@ int mrcal_cameramodel_converter(PyObject*             py_model,
         if(!mrcal_lensmodel_from_name(&((*model)->lensmodel),
                                       lensmodel))
             BARF_AND_GOTO_DONE("Couldn't parsse lensmodel from '%s'", lensmodel);
+        if(Nparams != mrcal_lensmodel_num_params(&((*model)->lensmodel)))
+            BARF_AND_GOTO_DONE("Lens model '%s' has %d intrinsics, but cameramodel.intrinsics() contains %d",
+                               lensmodel,
+                               mrcal_lensmodel_num_params(&((*model)->lensmodel)),
+                               Nparams);
         memcpy(&(*model)->intrinsics[0],
                PyArray_DATA((PyArrayObject*)intrinsics),
                Nparams*sizeof(double));
-- 
2.43.0


From 650682704be73c41cd2cc33544b417e8f5a3fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 019/120] fix: cameramodel.intrinsics() leaves the model alone
 if icam_extrinsics can't be inferred

---
 mrcal/cameramodel.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 30ca9ed..15931b1 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1586,6 +1586,15 @@ tuple where
                             icam_intrinsics,
                             icam_extrinsics)
 
+        # This can fail. I touch the model only after it succeeds
+        if optimization_inputs is not None and icam_extrinsics is None:
+            try:
+                icam_extrinsics = \
+                    mrcal.corresponding_icam_extrinsics(icam_intrinsics,
+                                                        **optimization_inputs)
+            except Exception as e:
+                raise Exception(f"optimization_inputs given, but icam_extrinsics not given. Inferring icam_extrinsics failed; are the cameras moving? Error: {e}")
+
         self._imagersize = np.array(imagersize, dtype=np.int32)
         self._intrinsics = (str(intrinsics[0]),
                             np.array(intrinsics[1], dtype=float))
@@ -1594,14 +1603,6 @@ tuple where
             self._optimization_inputs_string = \
                 _serialize_optimization_inputs(optimization_inputs)
             self._icam_intrinsics = icam_intrinsics
-
-            if icam_extrinsics is None:
-                try:
-                    icam_extrinsics = \
-                        mrcal.corresponding_icam_extrinsics(icam_intrinsics,
-                                                            **optimization_inputs)
-                except Exception as e:
-                    raise Exception(f"optimization_inputs given, but icam_extrinsics not given. Inferring icam_extrinsics failed; are the cameras moving? Error: {e}")
             self._icam_extrinsics = icam_extrinsics
         else:
             self._optimization_inputs_string = None
-- 
2.43.0


From 0a9260d1a3166f05251ea24f410f3a15ee917721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 020/120] fix: the cameramodel extrinsics setters refuse arrays
 of the wrong shape

---
 mrcal/cameramodel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 15931b1..5f71c5f 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1651,7 +1651,9 @@ The rt transformation TO the reference coordinate system.
 
 
         # setter
-        self._rt_cam_ref = mrcal.invert_rt(rt.astype(float))
+        rt_cam_ref = mrcal.invert_rt(rt.astype(float))
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1692,7 +1694,9 @@ The rt transformation FROM the reference coordinate system.
 
 
         # setter
-        self._rt_cam_ref = np.array(rt, dtype=float)
+        rt_cam_ref = np.array(rt, dtype=float)
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1732,7 +1736,9 @@ If this is a getter (no arguments given), returns a a numpy array of shape
             return mrcal.invert_Rt(mrcal.Rt_from_rt(self._rt_cam_ref))
 
         # setter
-        self._rt_cam_ref = mrcal.rt_from_Rt(mrcal.invert_Rt(Rt.astype(float)))
+        rt_cam_ref = mrcal.rt_from_Rt(mrcal.invert_Rt(Rt.astype(float)))
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1772,7 +1778,9 @@ If this is a getter (no arguments given), returns a a numpy array of shape
             return mrcal.Rt_from_rt(self._rt_cam_ref)
 
         # setter
-        self._rt_cam_ref = mrcal.rt_from_Rt(Rt.astype(float))
+        rt_cam_ref = mrcal.rt_from_Rt(Rt.astype(float))
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
-- 
2.43.0


From 1804588510ec545ce70664d35ee7aead54c87483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 021/120] fix: the C cameramodel reader skips lists that
 contain exponents with an explicit +

---
 cameramodel-parser.re | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index 3ad5eb8..7d63fde 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -308,12 +308,12 @@ static bool read_balanced_list( const char** pYYCURSOR, const char* start_file )
     while(true)
     {
         /*!re2c
-          ( IGNORE | [0-9eE.,-]*)* [[(]
+          ( IGNORE | [0-9eE.,+-]*)* [[(]
           {
             level++;
             continue;
           }
-          ( IGNORE | [0-9eE.,-]*)* [\])] IGNORE ","?
+          ( IGNORE | [0-9eE.,+-]*)* [\])] IGNORE ","?
           {
             level--;
             if(level < 0)
-- 
2.43.0


From ac2ae7519766e52ec40267ee191850bbd5bb8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 022/120] fix: mrcal_lensmodel_from_name() refuses an
 incomplete linearity

---
 mrcal.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index 124057f..fdc458f 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -145,7 +145,14 @@ static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_
 // of crashing later
 static bool LENSMODEL_CAHVORE__config_is_valid( const mrcal_LENSMODEL_CAHVORE__config_t* config, const char* config_str)
 {
-    return isfinite(config->linearity);
+    // sscanf() accepts incomplete numbers, such as "1e-"; strtod() does not
+    const char* number = strchr(config_str, '=');
+    char*       end    = NULL;
+    return
+        number != NULL &&
+        config->linearity == strtod(&number[1], &end) &&
+        *end == '\0' &&
+        isfinite(config->linearity);
 }
 static bool LENSMODEL_SPLINED_STEREOGRAPHIC__config_is_valid( const mrcal_LENSMODEL_SPLINED_STEREOGRAPHIC__config_t* config, const char* config_str)
 {
-- 
2.43.0


From 29966e5b260e7a870d2b0938fc0be57c17d5c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 023/120] fix: cameramodel refuses imagersize values that don't
 fit into an int32

---
 mrcal/cameramodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 5f71c5f..f5d8614 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -73,6 +73,9 @@ def _validateIntrinsics(imagersize,
         raise Exception("The imagersize must be an iterable of two positive integers")
     if imagersize[0] <= 0 or imagersize[1] <= 0:
         raise Exception("The imagersize must be an iterable of two positive integers")
+    if imagersize[0] > np.iinfo(np.int32).max or imagersize[1] > np.iinfo(np.int32).max:
+        # these are stored as 32-bit integers
+        raise Exception("The imagersize is too large")
     if imagersize[0] != int(imagersize[0]) or imagersize[1] != int(imagersize[1]):
         raise Exception("The imagersize must be an iterable of two positive integers")
 
-- 
2.43.0


From f66afbb1d503167751ce420c734a4bca77d016b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 024/120] fix: triangulation works for rays of any scale, and
 for rays perpendicular to the z axis

---
 triangulation.cc | 89 ++++++++++++++++++++++--------------------------
 1 file changed, 40 insertions(+), 49 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..ffc857d 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -36,64 +36,54 @@ triangulate_assume_intersect( // output
     //
     // This is over-determined: k has 2DOF, but I have 3 equations. I know that
     // the vectors intersect, so I can use 2 axes only, which makes the problem
-    // uniquely determined. Let's pick the 2 axes to use. The "forward"
-    // direction (z) is dominant, so let's use that. For the second axis, let's
-    // use whichever is best numerically: biggest abs(det), so that I divide by
-    // something as far away from 0 as possible. I have
+    // uniquely determined. Let's pick the 2 axes to use: whichever pair is best
+    // numerically, with the biggest abs(det), so that I divide by something as
+    // far away from 0 as possible. The "forward" direction (z) usually is
+    // dominant, but not if I'm looking sideways with wide lenses
     //
-    double fabs_det_xz = fabs(-v0.v[0].x*v1.v[2].x + v0.v[2].x*v1.v[0].x);
-    double fabs_det_yz = fabs(-v0.v[1].x*v1.v[2].x + v0.v[2].x*v1.v[1].x);
-
-    // If using xz, I have:
+    // If using axes a,b, I have:
     //
-    //   k = 1/(-v0[0]*v1[2] + v0[2]*v1[0]) * [-v1[2]     v1[0] ] t01
-    //                                        [-v0[2]     v0[0] ]
-    // [0] -> [1] if using yz
-    val_withgrad_t<NGRAD> k0;
-    if(fabs_det_xz > fabs_det_yz)
+    //   k = 1/(-v0[a]*v1[b] + v0[b]*v1[a]) * [-v1[b]     v1[a] ] t01
+    //                                        [-v0[b]     v0[a] ]
+    const int axes[3][2] = { {1,2}, {0,2}, {0,1} };
+    int    ibest         = 0;
+    double fabs_det_best = -1.0;
+    for(int i=0; i<3; i++)
     {
-        // xz
-        if(fabs_det_xz <= 1e-10)
-            return false;
-
-        val_withgrad_t<NGRAD> det = v1.v[0]*v0.v[2] - v0.v[0]*v1.v[2];
-        k0 = (t01.v[2]*v1.v[0] - t01.v[0]*v1.v[2]) / det;
-        if(k0.x <= 0.0)
-            return false;
-        bool k1_negative = (t01.v[2].x*v0.v[0].x > t01.v[0].x*v0.v[2].x) ^ (det.x > 0);
-        if(k1_negative)
-            return false;
-
-#if 0
-        val_withgrad_t<NGRAD> k1 = (t01.v[2]*v0.v[0] - t01.v[0]*v0.v[2]) / det;
-        vec_withgrad_t<NGRAD,3> m2 = v1*k1 + t01;
-        m2 -= m;
-        double d2 = m2.v[0].x*m2.v[0].x + m2.v[1].x*m2.v[1].x + m2.v[2].x*m2.v[2].x;
-        fprintf(stderr, "diff: %f\n", d2);
-#endif
+        const int a = axes[i][0];
+        const int b = axes[i][1];
+        const double fabs_det = fabs(-v0.v[a].x*v1.v[b].x + v0.v[b].x*v1.v[a].x);
+        if(fabs_det > fabs_det_best)
+        {
+            ibest         = i;
+            fabs_det_best = fabs_det;
+        }
     }
-    else
-    {
-        // yz
-        if(fabs_det_yz <= 1e-10)
-            return false;
-
-        val_withgrad_t<NGRAD> det = v1.v[1]*v0.v[2] - v0.v[1]*v1.v[2];
-        k0 = (t01.v[2]*v1.v[1] - t01.v[1]*v1.v[2]) / det;
-        if(k0.x <= 0.0)
-            return false;
-        bool k1_negative = (t01.v[2].x*v0.v[1].x > t01.v[1].x*v0.v[2].x) ^ (det.x > 0);
-        if(k1_negative)
-            return false;
+
+    // The vectors aren't necessarily normalized
+    const double norm2_v0 = v0.v[0].x*v0.v[0].x + v0.v[1].x*v0.v[1].x + v0.v[2].x*v0.v[2].x;
+    const double norm2_v1 = v1.v[0].x*v1.v[0].x + v1.v[1].x*v1.v[1].x + v1.v[2].x*v1.v[2].x;
+    if(!(fabs_det_best > 1e-10*sqrt(norm2_v0*norm2_v1)))
+        return false;
+
+    const int a = axes[ibest][0];
+    const int b = axes[ibest][1];
+
+    val_withgrad_t<NGRAD> det = v1.v[a]*v0.v[b] - v0.v[a]*v1.v[b];
+    val_withgrad_t<NGRAD> k0  = (t01.v[b]*v1.v[a] - t01.v[a]*v1.v[b]) / det;
+    if(k0.x <= 0.0)
+        return false;
+    bool k1_negative = (t01.v[b].x*v0.v[a].x > t01.v[a].x*v0.v[b].x) ^ (det.x > 0);
+    if(k1_negative)
+        return false;
 
 #if 0
-    val_withgrad_t<NGRAD> k1 = (t01.v[2]*v0.v[1] - t01.v[1]*v0.v[2]) / det;
+    val_withgrad_t<NGRAD> k1 = (t01.v[b]*v0.v[a] - t01.v[a]*v0.v[b]) / det;
     vec_withgrad_t<NGRAD,3> m2 = v1*k1 + t01;
     m2 -= m;
-    double d2 = m2.v[1].x*m2.v[1].x + m2.v[1].x*m2.v[1].x + m2.v[2].x*m2.v[2].x;
+    double d2 = m2.v[0].x*m2.v[0].x + m2.v[1].x*m2.v[1].x + m2.v[2].x*m2.v[2].x;
     fprintf(stderr, "diff: %f\n", d2);
 #endif
-    }
 
     m = v0 * k0;
 
@@ -168,7 +158,8 @@ mrcal_triangulate_geometric(// outputs
     val_withgrad_t<9> dot_v1t  = v1.dot(t01);
 
     val_withgrad_t<9> denom = dot_v0v0*dot_v1v1 - dot_v0v1*dot_v0v1;
-    if(-1e-10 <= denom.x && denom.x <= 1e-10)
+    // The vectors aren't necessarily normalized
+    if(!(denom.x > 1e-10 * dot_v0v0.x*dot_v1v1.x))
         return (mrcal_point3_t){0};
 
     val_withgrad_t<9> denom_recip = val_withgrad_t<9>(1.)/denom;
-- 
2.43.0


From 00cc606aa079272b2b50c70ed2ebc37085d3b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 025/120] fix: stereo_range() of a full image of fractional,
 wide or negative disparities

A dense disparity image was cast to uint16 unconditionally, as were the limits:
floating-point disparities were truncated, and out-of-range data wrapped around
---
 mrcal/stereo.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index 1efe69b..6d00f05 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -809,7 +809,7 @@ rectified direction
         np.array(models_rectified[0].imagersize()) - \
         np.array(models_rectified[1].imagersize())
     if imagersize_diff[0] != 0 or imagersize_diff[1] != 0:
-        raise Exceptions("The two rectified models MUST have the same imager size")
+        raise Exception("The two rectified models MUST have the same imager size")
 
     costh = (np.trace(Rt01[:3,:]) - 1.) / 2.
     if costh < 0.999999:
@@ -1244,7 +1244,7 @@ RETURNED VALUES
                 disparity_scaled_min = disparity_min * disparity_scale
         if disparity_scaled_max is None:
             if disparity_max is None:
-                disparity_scaled_max = np.uint16(np.iinfo(np.uint16).max)
+                disparity_scaled_max = np.finfo(float).max
             else:
                 disparity_scaled_max = disparity_max * disparity_scale
     else:
@@ -1281,12 +1281,38 @@ RETURNED VALUES
         if np.any(disparity.shape - np.array((H,W),dtype=int)):
             raise Exception(f"qrect0 is None, so the given disparity and full rectified images MUST have the same dimensions. I have {disparity.shape=} and {models_rectified[0].imagersize()=}")
 
+        # The dense implementation works with 16-bit unsigned integers only. Any
+        # other data (floating-point disparities for instance) is handled by the
+        # general implementation
+        if disparity.dtype in (np.uint8, np.uint16, np.int8, np.int16) and \
+           1 <= disparity_scale <= 0xFFFF and disparity_scale == int(disparity_scale):
+
+            # disparity <= 0 is always invalid
+            limit = min(np.iinfo(disparity.dtype).max, disparity_scaled_max)
+            disparity_scaled_min_uint16 = int(np.ceil (np.clip(disparity_scaled_min, 0, 0x10000)))
+            disparity_scaled_max_uint16 = int(np.floor(np.clip(limit,               -1, 0xFFFF )))
+            use_dense = disparity_scaled_min_uint16 < disparity_scaled_max_uint16
+        else:
+            use_dense = False
+
+        if not use_dense:
+            disparity_min = disparity_scaled_min / disparity_scale
+            disparity_max = disparity_scaled_max / disparity_scale
+
+            # shape (H,W,2)
+            qrect0 = np.ascontiguousarray( \
+                   nps.mv( nps.cat( *np.meshgrid(np.arange(W,dtype=float),
+                                                 np.arange(H,dtype=float))),
+                           0, -1))
+
+    if qrect0 is None:
+
         r =                                    \
             mrcal._mrcal_npsp._stereo_range_dense \
                 ( disparity_scaled     = disparity.astype(np.uint16),
                   disparity_scale      = np.uint16(disparity_scale),
-                  disparity_scaled_min = np.uint16(disparity_scaled_min),
-                  disparity_scaled_max = np.uint16(disparity_scaled_max),
+                  disparity_scaled_min = np.uint16(disparity_scaled_min_uint16),
+                  disparity_scaled_max = np.uint16(disparity_scaled_max_uint16),
                   rectification_model_type = models_rectified[0].intrinsics()[0],
                   fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
                   baseline             = baseline )
-- 
2.43.0


From ce638beef2ed627c6ce3d12879368486fd504da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 026/120] fix: stereo_range() broadcasts (disparity,qrect0),
 and accepts any memory layout

As documented. Previously only leading dimensions were broadcast, and arrays
that weren't C-contiguous were refused
---
 mrcal/stereo.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index 6d00f05..c78af29 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -1309,7 +1309,7 @@ RETURNED VALUES
 
         r =                                    \
             mrcal._mrcal_npsp._stereo_range_dense \
-                ( disparity_scaled     = disparity.astype(np.uint16),
+                ( disparity_scaled     = disparity.astype(np.uint16, order='C'),
                   disparity_scale      = np.uint16(disparity_scale),
                   disparity_scaled_min = np.uint16(disparity_scaled_min_uint16),
                   disparity_scaled_max = np.uint16(disparity_scaled_max_uint16),
@@ -1319,10 +1319,15 @@ RETURNED VALUES
 
     else:
 
+        # If I have many pixels, but just one disparity, I have many ranges
+        if qrect0.ndim > 1: is_scalar = False
+
+        shape = np.broadcast(disparity, qrect0[...,0]).shape
+
         r =                                     \
             mrcal._mrcal_npsp._stereo_range_sparse \
-                ( disparity            = disparity.astype(float) / disparity_scale,
-                  qrect0               = qrect0.astype(float),
+                ( disparity            = np.array(np.broadcast_to(disparity, shape), dtype=float, order='C') / disparity_scale,
+                  qrect0               = np.array(np.broadcast_to(qrect0, shape + (2,)), dtype=float, order='C'),
                   disparity_min        = float(disparity_min),
                   disparity_max        = float(disparity_max),
                   rectification_model_type = models_rectified[0].intrinsics()[0],
-- 
2.43.0


From eddfd535aa9a8647e22146fc95851252514a6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 027/120] fix: saving a .png image with unusual strides writes
 the right pixels

Negative and 0 strides are interpreted differently by libpng: the wrong memory
was read
---
 image.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/image.c b/image.c
index ea1b289..566ebab 100644
--- a/image.c
+++ b/image.c
@@ -64,7 +64,8 @@ bool generic_save_png(const char* filename,
                       const int bits_per_pixel,
                       const int channels)
 {
-    bool result = false;
+    bool     result = false;
+    uint8_t* dense  = NULL;
 
     png_image pimage = { .version = PNG_IMAGE_VERSION,
                          .width   = image->width,
@@ -72,8 +73,32 @@ bool generic_save_png(const char* filename,
                          .format  =
                              bits_per_pixel == 24 ? PNG_FORMAT_RGB :
                                  (bits_per_pixel == 16 ? PNG_FORMAT_LINEAR_Y : PNG_FORMAT_GRAY) };
-    if(!png_image_write_to_file(&pimage, filename, 0, image->data,
-                                bits_per_pixel == 16 ? image->stride/2 : image->stride,
+
+    // libpng has its own interpretation of strides <= 0, and the 16-bit strides
+    // are in units of 16-bit words. If I have anything unusual, I make a dense
+    // copy
+    const int   bytes_per_row = image->width * bits_per_pixel/8;
+    const void* data          = image->data;
+    int         stride        = image->stride;
+    if(stride < bytes_per_row ||
+       (bits_per_pixel == 16 && stride % 2))
+    {
+        dense = malloc((size_t)bytes_per_row * (size_t)image->height);
+        if(dense == NULL)
+        {
+            MSG("Could not malloc buffer for the dense image");
+            goto done;
+        }
+        for(int i=0; i<image->height; i++)
+            memcpy(&dense[(ptrdiff_t)i * bytes_per_row],
+                   &((const uint8_t*)image->data)[(ptrdiff_t)i * image->stride],
+                   bytes_per_row);
+        data   = dense;
+        stride = bytes_per_row;
+    }
+
+    if(!png_image_write_to_file(&pimage, filename, 0, data,
+                                bits_per_pixel == 16 ? stride/2 : stride,
                                 NULL))
     {
         MSG("png_image_write_to_file('%s') failed", filename);
@@ -83,6 +108,7 @@ bool generic_save_png(const char* filename,
 
 done:
     png_image_free(&pimage);
+    free(dense);
     return result;
 }
 
-- 
2.43.0


From 350ef9d2e54b1393e46fbcd3ced5c1ebc3f7d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 028/120] fix: failures to write a .pgm, .ppm image are
 reported

---
 image.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image.c b/image.c
index 566ebab..4c020e5 100644
--- a/image.c
+++ b/image.c
@@ -157,7 +157,11 @@ bool generic_save_pnm(const char* filename,
     result = true;
 
 done:
-    if(fp != NULL) fclose(fp);
+    if(fp != NULL && 0 != fclose(fp) && result)
+    {
+        MSG("Error writing '%s'", filename);
+        result = false;
+    }
     return result;
 }
 
-- 
2.43.0


From 3c8ecf68697f98c998a158b7246e80e888a770e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 029/120] fix: stretch equalization of images with the maximum
 in a leading pixel, or with constant images

---
 image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image.c b/image.c
index 4c020e5..f867a63 100644
--- a/image.c
+++ b/image.c
@@ -413,12 +413,13 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            if      (x < min) min = x;
-            else if (x > max) max = x;
+            if(x < min) min = x;
+            if(x > max) max = x;
         }
     }
 
     uint16_t max_min = max-min;
+    if(max_min == 0) max_min = 1; // the image is constant
 
     for(int i=0; i<in->height; i++)
     {
-- 
2.43.0


From a0b287542686d7e3bd6a50c2964b1147904b73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 030/120] fix: 16-bit .pgm images are read and written with the
 byte order in the standard

---
 image.c | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/image.c b/image.c
index f867a63..15166e7 100644
--- a/image.c
+++ b/image.c
@@ -144,11 +144,28 @@ bool generic_save_pnm(const char* filename,
     // I write each row separately, in case the rows aren't stored densely
     for(int i=0; i<image->height; i++)
     {
-        if( (size_t)image->width !=
-            fwrite(&((const uint8_t*)image->data)[ image->stride*i ],
-                   bits_per_pixel/8,
-                   image->width,
-                   fp) )
+        const uint8_t* row = &((const uint8_t*)image->data)[ (ptrdiff_t)image->stride*i ];
+        if(bits_per_pixel == 16)
+        {
+            // The standard says that 16-bit data is stored with the most
+            // significant byte first
+            for(int j=0; j<image->width; j++)
+            {
+                uint16_t x;
+                memcpy(&x, &row[2*j], sizeof(x));
+                if(EOF == fputc(x >> 8,   fp) ||
+                   EOF == fputc(x & 0xFF, fp))
+                {
+                    MSG("Didn't write the correct number of bytes into '%s'; giving up", filename);
+                    goto done;
+                }
+            }
+        }
+        else if( (size_t)image->width !=
+                 fwrite(row,
+                        bits_per_pixel/8,
+                        image->width,
+                        fp) )
         {
             MSG("Didn't write the correct number of bytes into '%s'; giving up", filename);
             goto done;
@@ -441,6 +458,40 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
 
 
 
+// 16-bit .pgm files are stored with the most significant byte first. stb reports
+// these as they appear in the file on little-endian machines. I look at what the
+// stb we're using does
+static
+bool stb_swaps_pgm16(void)
+{
+    static const unsigned char pgm[] = "P5\n1 1\n65535\n\x01\x02";
+    int w,h,c;
+    stbi_us* x = stbi_load_16_from_memory(pgm, sizeof(pgm)-1, &w,&h,&c, 1);
+    if(x == NULL) return false;
+    const bool result = (*x == 0x0201);
+    stbi_image_free(x);
+    return result;
+}
+// Reads a 16-bit 1-channel image. Returns NULL on error
+static
+uint16_t* load_uint16(int* width, int* height, FILE* fp)
+{
+    const long pos = ftell(fp);
+    const bool is_pgm = (fgetc(fp) == 'P' && fgetc(fp) == '5');
+    if(pos < 0 || 0 != fseek(fp, pos, SEEK_SET))
+        return NULL;
+
+    int channels;
+    uint16_t* buf = stbi_load_from_file_16(fp, width, height, &channels, 1);
+    if(buf != NULL && is_pgm && stb_swaps_pgm16())
+    {
+        const size_t N = (size_t)*width * (size_t)*height;
+        for(size_t i=0; i<N; i++)
+            buf[i] = (uint16_t)((buf[i] << 8) | (buf[i] >> 8));
+    }
+    return buf;
+}
+
 static
 bool generic_load(// output
 
@@ -533,7 +584,7 @@ bool generic_load(// output
         {
             // special case: uint16 monochrome image. I apply stretch
             // equalization
-            image_buf = (unsigned char*)stbi_load_from_file_16(fp, &width, &height, &channels, 1);
+            image_buf = (unsigned char*)load_uint16(&width, &height, fp);
             if(image_buf == NULL)
             {
                 MSG("Couldn't load image: stbi_load_from_file_16(\"%s\", desired_channels=1) failed", filename);
@@ -579,7 +630,7 @@ bool generic_load(// output
     }
     else if(*bits_per_pixel == 16)
     {
-        image_buf = (unsigned char*)stbi_load_from_file_16(fp, &width, &height, &channels, 1);
+        image_buf = (unsigned char*)load_uint16(&width, &height, fp);
         if(image_buf == NULL)
         {
             MSG("Couldn't load image: stbi_load_from_file_16(\"%s\", desired_channels=1) failed", filename);
-- 
2.43.0


From 86462e7ce9fe5a11dbda3272eadb58f3fe76a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 031/120] fix: apply_color_map() with negative and with
 widely-spread data

The smallest floating-point value isn't FLT_MIN, DBL_MIN, and the integer range
could overflow
---
 mrcal-genpywrap.py | 8 ++++----
 stereo.c           | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/mrcal-genpywrap.py b/mrcal-genpywrap.py
index d69e4f5..fe4a2de 100644
--- a/mrcal-genpywrap.py
+++ b/mrcal-genpywrap.py
@@ -787,12 +787,12 @@ body__apply_color_map = r'''
 
                  {T} T_a_min;
                  if(      *a_min < (double)({T_min}) ) T_a_min = {T_min};
-                 else if( *a_min > (double)({T_max}) ) T_a_min = {T_max};
+                 else if( *a_min >= (double)({T_max}) ) T_a_min = {T_max};
                  else                                  T_a_min = ({T})(*a_min);
 
                  {T} T_a_max;
                  if(      *a_max < (double)({T_min}) ) T_a_max = {T_min};
-                 else if( *a_max > (double)({T_max}) ) T_a_max = {T_max};
+                 else if( *a_max >= (double)({T_max}) ) T_a_max = {T_max};
                  else                                  T_a_max = ({T})(*a_max);
 
                  mrcal_image_bgr_t out   = {.height = H,
@@ -998,12 +998,12 @@ unsigned integers. The last row is the BGR color-mapped values.
                 (np.float32, np.uint8): body__apply_color_map \
                   .replace('{T}',     'float') \
                   .replace('{Tname}', 'float') \
-                  .replace('{T_min}', 'FLT_MIN') \
+                  .replace('{T_min}', '-FLT_MAX') \
                   .replace('{T_max}', 'FLT_MAX'),
                 (np.float64, np.uint8): body__apply_color_map \
                   .replace('{T}',     'double') \
                   .replace('{Tname}', 'double') \
-                  .replace('{T_min}',  'DBL_MIN') \
+                  .replace('{T_min}',  '-DBL_MAX') \
                   .replace('{T_max}',  'DBL_MAX'),
             },
 )
diff --git a/stereo.c b/stereo.c
index ec97040..79454a4 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1212,7 +1212,8 @@ gnuplot_color_formula(uint8_t* out,
             else if(*in_T >= in_max)                                    \
                 x = 1.0f;                                               \
             else                                                        \
-                x = (float)(*in_T - in_min) / (float)(in_max - in_min); \
+                x = (float)(((double)*in_T - (double)in_min) /          \
+                            ((double)in_max - (double)in_min));         \
                                                                         \
             if(!gnuplot_color_formula(&out_bgr->bgr[2], function_red,   x) || \
                !gnuplot_color_formula(&out_bgr->bgr[1], function_green, x) || \
@@ -1234,8 +1235,8 @@ DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
 DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
 DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
 
-DEFINE_mrcal_apply_color_map(float,    float,  FLT_MIN,   FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, DBL_MIN,   DBL_MAX)
+DEFINE_mrcal_apply_color_map(float,    float,  -FLT_MAX,  FLT_MAX)
+DEFINE_mrcal_apply_color_map(double,   double, -DBL_MAX,  DBL_MAX)
 
 
 
-- 
2.43.0


From 3ea016104c86b4524f704937bad528d2de9136eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 032/120] fix: pixel access in images whose stride isn't a
 multiple of the pixel size

---
 image.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image.h b/image.h
index cc629b2..bf6696b 100644
--- a/image.h
+++ b/image.h
@@ -83,13 +83,14 @@ typedef struct                                                          \
 static inline                                                           \
 T* mrcal_image_ ## Tname ## _at(mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    /* the stride is in bytes; it isn't necessarily a multiple of sizeof(T) */ \
+    return &((T*)((char*)image->data + (intptr_t)y*image->stride))[x];  \
 }                                                                       \
                                                                         \
 static inline                                                           \
 const T* mrcal_image_ ## Tname ## _at_const(const mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    return &((const T*)((const char*)image->data + (intptr_t)y*image->stride))[x]; \
 }                                                                       \
                                                                         \
 static inline                                                           \
-- 
2.43.0


From 137bbb0af31cf5dd38a04122935948cba34760e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 033/120] fix: saving a .jpg image with negative strides
 doesn't read out of bounds

---
 image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image.c b/image.c
index 15166e7..5761631 100644
--- a/image.c
+++ b/image.c
@@ -278,7 +278,7 @@ bool generic_save_jpg(const char* filename,
 
     JSAMPROW row_pointer[1];
     while (cinfo.next_scanline < cinfo.image_height) {
-        row_pointer[0] = &((uint8_t*)image->data)[cinfo.next_scanline * image->stride];
+        row_pointer[0] = &((uint8_t*)image->data)[(ptrdiff_t)cinfo.next_scanline * image->stride];
         jpeg_write_scanlines(&cinfo, row_pointer, 1);
     }
 
-- 
2.43.0


From 5b58a2323ff4fac81220135246f5f614827d52b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:42 +0000
Subject: [PATCH 034/120] fix: uncertainty propagation when the extrinsics or
 the intrinsics are fixed, or for a scalar without regularization

---
 mrcal/model_analysis.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 6d48718..030b5b3 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -853,7 +853,7 @@ In the regularized case:
 
     if what == 'covariance':
         if scalar:
-            Var_dF = Var_dF[0,0]
+            Var_dF = Var_dF.ravel()[0]
         return Var_dF * observed_pixel_uncertainty*observed_pixel_uncertainty
     if what == 'worstdirection-stdev':
         return worst_direction_stdev(Var_dF) * observed_pixel_uncertainty
@@ -1340,6 +1340,7 @@ else:                    we return an array of shape (...)
 
     else:
         slice_intrinsics_state = None
+        slice_intrinsics_arg   = None
 
     Nstate = mrcal.num_states(**optimization_inputs)
 
@@ -1448,7 +1449,7 @@ else:                    we return an array of shape (...)
             if get_input('observations_point')              is not None or \
                get_input('observations_point_triangulated') is not None:
                 raise Exception(f"We have point observations that we are optimizing; only cross-reprojection uncertainty can work here. Have {method=}")
-            if rt_ref_frame is None and points is None:
+            if rt_ref_frame is None and get_input('points') is None:
                 raise Exception("Some frames or points must exist for the no-cross-reprojection uncertainty computation, but we don't have any")
 
 
@@ -1491,8 +1492,12 @@ else:                    we return an array of shape (...)
         istate_extrinsics0 = mrcal.state_index_extrinsics(icam_extrinsics[0],
                                                           **optimization_inputs)
         Ncameras_extrinsics = rt_cam_ref.shape[0]
-        slice_extrinsics_state = slice(istate_extrinsics0,
-                                       istate_extrinsics0 + Ncameras_extrinsics*6)
+        if istate_extrinsics0 is not None:
+            slice_extrinsics_state = slice(istate_extrinsics0,
+                                           istate_extrinsics0 + Ncameras_extrinsics*6)
+        else:
+            # The extrinsics are fixed
+            slice_extrinsics_state = None
 
 
     # shape (..., 2, Nstate)
-- 
2.43.0


From 1cba72b2a577499d57a6114b96ca285d09987e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 035/120] fix: cross-reprojection uncertainty of a problem with
 points only and fixed extrinsics

---
 uncertainty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uncertainty.c b/uncertainty.c
index ebc5256..e462f1e 100644
--- a/uncertainty.c
+++ b/uncertainty.c
@@ -972,6 +972,7 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
     }
 
     if(state_index_frames0     < 0 &&
+       state_index_points0     < 0 &&
        state_index_extrinsics0 < 0)
     {
         MSG("Cross-reprojection uncertainty requires either the extrinsics or the frames/points to be optimized. Otherwise the direct method looking at the intrinsics subset of J works fine");
-- 
2.43.0


From fb3083691e0c098f4bcf98ae938349feda72c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 036/120] fix: cross-reprojection uncertainty with observations
 that have no gradients

---
 uncertainty.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainty.c b/uncertainty.c
index e462f1e..a69d978 100644
--- a/uncertainty.c
+++ b/uncertainty.c
@@ -1103,6 +1103,10 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
             do
             {
                 ival = Jrowptr[imeas];
+                if(!(ival < Jrowptr[imeas+1]))
+                    // No gradients here at all: an observation of a fixed point
+                    // by a fixed camera
+                    break;
 
                 int state_index = Jcolidx[ival];
 
-- 
2.43.0


From ca9da08ad4fbf80c8f620e3cb7f89323793becc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 037/120] fix: CHOLMOD_factorization validates its input

---
 mrcal-pywrap.c | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index fb57b4c..8bbac72 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -369,6 +369,43 @@ CHOLMOD_factorization_init(CHOLMOD_factorization* self, PyObject* args, PyObject
     CHECK_NUMPY_ARRAY(indices, NPY_INT32);
     CHECK_NUMPY_ARRAY(indptr,  NPY_INT32);
 
+    // CHOLMOD trusts these, so I make sure that they are consistent
+    {
+        const int32_t* indptr  = (const int32_t*)PyArray_DATA((PyArrayObject*)Py_indptr);
+        const int32_t* indices = (const int32_t*)PyArray_DATA((PyArrayObject*)Py_indices);
+        const double*  data    = (const double* )PyArray_DATA((PyArrayObject*)Py_data);
+
+        if( PyArray_SIZE((PyArrayObject*)Py_indptr) != h+1 ||
+            indptr[0] != 0                                 ||
+            indptr[h] != nnz                               ||
+            PyArray_SIZE((PyArrayObject*)Py_indices) < nnz ||
+            PyArray_SIZE((PyArrayObject*)Py_data)    < nnz )
+        {
+            BARF("J.shape, J.indptr, J.indices, J.data are inconsistent");
+            goto done;
+        }
+        for(long i=0; i<h; i++)
+            if(indptr[i+1] < indptr[i])
+            {
+                BARF("J.indptr must be non-decreasing");
+                goto done;
+            }
+        for(long i=0; i<nnz; i++)
+        {
+            if(indices[i] < 0 || indices[i] >= w)
+            {
+                BARF("J.indices must all be in [0,%ld), but J.indices[%ld] = %d",
+                     w, i, (int)indices[i]);
+                goto done;
+            }
+            if(!isfinite(data[i]))
+            {
+                BARF("J.data must be finite");
+                goto done;
+            }
+        }
+    }
+
     // OK, the input looks good. I guess I can tell CHOLMOD about it
 
     // My convention is to store row-major matrices, but CHOLMOD stores
@@ -504,7 +541,8 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
 #undef SYS_NAME
 
     int Nstate = (int)PyArray_DIMS((PyArrayObject*)Py_bt)[ndim-1];
-    int Nrhs   = (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
+    // if Nstate==0 we will barf below
+    int Nrhs   = Nstate == 0 ? 0 : (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
 
     if( self->factorization->n != (unsigned)Nstate )
     {
-- 
2.43.0


From 52d4dd3802048610ee7b83215943cc9f7d42abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 038/120] fix: the Python poseutils report an error for
 negative or zero strides in a slice

The C functions interpret these as 'contiguous', so reversed or broadcasted
views silently produced wrong results, and accessed memory outside of the arrays
---
 poseutils-genpywrap.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/poseutils-genpywrap.py b/poseutils-genpywrap.py
index 71c6abf..47ba235 100755
--- a/poseutils-genpywrap.py
+++ b/poseutils-genpywrap.py
@@ -42,6 +42,44 @@ m = npsp.module( name      = "_poseutils_npsp",
 #include <string.h>
 ''')
 
+# The C functions interpret strides <= 0 as "contiguous", so they cannot process
+# arrays that have such strides inside each slice: reversed or broadcasted views.
+# By default each function here checks for that, and reports an error instead of
+# silently computing the wrong thing
+_m_function = m.function
+def function(name, docstring,
+             args_input, prototype_input, prototype_output,
+             **kwargs):
+    if not 'Ccode_validate' in kwargs:
+        def check(name, prototype):
+            return f'''
+            have_data = true;
+            for(int i=0; i<Ndims_full__{name}; i++)
+                if(dims_full__{name}[i] == 0) have_data = false;
+            for(int i=0; have_data && i<Ndims_slice__{name}; i++)
+                if(dims_slice__{name}[i] > 1 && strides_slice__{name}[i] <= 0)
+                {{
+                    PyErr_SetString(PyExc_RuntimeError,
+                                    "Variable '{name}' must have positive strides in each slice");
+                    return false;
+                }}
+'''
+
+        checks = ['bool have_data;']
+        for n,p in zip(args_input,prototype_input):
+            checks.append(check(n,p))
+        if len(prototype_output) and isinstance(prototype_output[0], (tuple,list)):
+            for i,p in enumerate(prototype_output):
+                checks.append(check(f'output{i}',p))
+        else:
+            checks.append(check('output',prototype_output))
+        kwargs['Ccode_validate'] = ''.join(checks) + 'return true;'
+
+    _m_function(name, docstring,
+                args_input, prototype_input, prototype_output,
+                **kwargs)
+m.function = function
+
 m.function( "identity_R",
             """Return an identity rotation matrix
 
-- 
2.43.0


From 64ce4310bdf39ebc5a518c24785705320eb0be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 039/120] fix: unproject(get_gradients=True,out=...) refuses
 output arrays it can't represent the results in

---
 mrcal/projections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/projections.py b/mrcal/projections.py
index 10811dc..233ea79 100644
--- a/mrcal/projections.py
+++ b/mrcal/projections.py
@@ -247,6 +247,10 @@ if get_gradients: we return a tuple:
                            -1, -2)
 
 
+    if get_gradients and out is not None and \
+       not (len(out) == 3 and all(o.dtype == float for o in out)):
+        raise Exception("If get_gradients, 'out' must contain 3 arrays with dtype=float")
+
     # First, handle some trivial cases. I don't want to run the
     # optimization-based unproject() if I don't have to
     if lensmodel == 'LENSMODEL_PINHOLE' or \
-- 
2.43.0


From aae20910919644fa308d23f858d443a2575cbf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 040/120] fix: triangulate_lindstrom(v_are_local=False)
 broadcasts over Rt01

---
 mrcal/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index c4cbd3f..cd117ff 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -941,7 +941,7 @@ if get_gradients: we return a tuple:
     if not v_are_local:
         if get_gradients:
             raise Exception("get_gradients is True, so v_are_local MUST be True")
-        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[:3,:]), v1)
+        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[...,:3,:]), v1)
 
     if not get_gradients:
         return mrcal._triangulation_npsp._triangulate_lindstrom(v0, v1, Rt01, out=out)
-- 
2.43.0


From 2f15cc33054aee7ba6d5f51ae1c796ba1fd3b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 041/120] fix: byte-swapped arrays are refused instead of being
 used as if native

---
 mrcal-pywrap.c              | 14 +++++++++++---
 python-wrapping-utilities.h |  6 ++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 8bbac72..e351268 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -354,7 +354,8 @@ CHOLMOD_factorization_init(CHOLMOD_factorization* self, PyObject* args, PyObject
              PyArray_NDIM((PyArrayObject*)Py_ ## x));                   \
         goto done;                                                      \
     }                                                                   \
-    if( PyArray_TYPE((PyArrayObject*)Py_ ## x) != dtype )               \
+    if( PyArray_TYPE((PyArrayObject*)Py_ ## x) != dtype ||              \
+        PyArray_ISBYTESWAPPED((PyArrayObject*)Py_ ## x) )               \
     {                                                                   \
         BARF("J."#x " must have dtype: " #dtype);                       \
         goto done;                                                      \
@@ -551,7 +552,8 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
              Nstate);
         goto done;
     }
-    if( PyArray_TYPE((PyArrayObject*)Py_bt) != NPY_FLOAT64 )
+    if( PyArray_TYPE((PyArrayObject*)Py_bt) != NPY_FLOAT64 ||
+        PyArray_ISBYTESWAPPED((PyArrayObject*)Py_bt) )
     {
         BARF("bt must have dtype=float");
         goto done;
@@ -3586,7 +3588,7 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
 
     mrcal_problem_selections_t problem_selections = CONSTRUCT_PROBLEM_SELECTIONS();
 
-    if( PyArray_TYPE(b) != NPY_DOUBLE )
+    if( PyArray_TYPE(b) != NPY_DOUBLE || PyArray_ISBYTESWAPPED(b) )
     {
         BARF("The given array MUST have values of type 'float'");
         goto done;
@@ -3820,6 +3822,12 @@ PyObject* save_image(PyObject* NPY_UNUSED(self),
     int             dtype   = PyArray_TYPE(image_array);
     const npy_intp* strides = PyArray_STRIDES(image_array);
 
+    if(PyArray_ISBYTESWAPPED(image_array))
+    {
+        BARF("I only know how to save arrays in the native byte order");
+        goto done;
+    }
+
     if(ndim == 2 && dtype == NPY_UINT8)
     {
         if(strides[ndim-1] != 1)
diff --git a/python-wrapping-utilities.h b/python-wrapping-utilities.h
index d3c3b92..d2c97c9 100644
--- a/python-wrapping-utilities.h
+++ b/python-wrapping-utilities.h
@@ -101,6 +101,12 @@ static bool _check_layout(const char*    name,
                      name, npy_type_string);
                 return false;
             }
+            if( PyArray_ISBYTESWAPPED(pyarrayobj) )
+            {
+                BARF("'%s' must have native byte order",
+                     name);
+                return false;
+            }
             if( do_check_for_contiguity &&
                 !PyArray_IS_C_CONTIGUOUS(pyarrayobj) )
             {
-- 
2.43.0


From faac43b15b181b6f36512d6ef182a3e5f670091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 042/120] fix: pack_state(), unpack_state() require a writeable
 array to work on in-place

---
 mrcal-pywrap.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index e351268..3de3424 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -908,6 +908,18 @@ int PyArray_Converter_leaveNone(PyObject* obj, PyObject** address)
     }
     return PyArray_Converter(obj,address);
 }
+// just like PyArray_Converter(), but the given object must already be a writeable
+// array. For arrays we modify in-place
+static
+int PyArray_Converter_inplace(PyObject* obj, PyObject** address)
+{
+    if(!PyArray_Check(obj) || !PyArray_ISWRITEABLE((PyArrayObject*)obj))
+    {
+        BARF("This function works in-place, so a writeable numpy array must be given");
+        return 0;
+    }
+    return PyArray_Converter(obj,address);
+}
 static
 int PyArray_Converter_checkrenamed_leaveNone(PyObject* obj, PyObject** address)
 {
@@ -3542,7 +3554,7 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
                                      arg_string,
                                      keywords,
 
-                                     PyArray_Converter, &b,
+                                     PyArray_Converter_inplace, &b,
                                      &Ncameras_intrinsics,
                                      &Ncameras_extrinsics,
                                      &Nframes,
-- 
2.43.0


From cd8cf67ca4a8cfb56e663edcb1860d0efe4f772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 043/120] fix: legacy aliases extrinsics_rt_fromref,
 frames_rt_toref work in optimize(), and an error there leaks nothing

---
 mrcal-pywrap.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 3de3424..1cb9624 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1746,6 +1746,13 @@ PyObject* _optimize(optimizemode_t optimizemode,
         }                                                               \
     } while(0)
 
+    // Must happen before the SET_SIZE0_IF_NONE(): those make the new-style
+    // arguments non-NULL
+    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
+        goto done;
+    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
+        goto done;
+
     SET_SIZE0_IF_NONE(rt_cam_ref,      NPY_DOUBLE, 0,6);
 
     SET_SIZE0_IF_NONE(rt_ref_frame,                                        NPY_DOUBLE, 0,6);
@@ -1760,11 +1767,6 @@ PyObject* _optimize(optimizemode_t optimizemode,
     SET_SIZE0_IF_NONE(imagersizes,                                            NPY_INT32,  0, 2);
 #undef SET_NULL_IF_NONE
 
-    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
-    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
-
     mrcal_lensmodel_t mrcal_lensmodel;
     // Check the arguments for optimize(). If optimizer_callback, then the other
     // stuff is defined, but it all has valid, default values
@@ -2376,9 +2378,9 @@ static PyObject* state_index_generic(callback_state_index_t cb,
 #undef CALLED_FUNCTION_BUFFER
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
     mrcal_lensmodel_t mrcal_lensmodel = {};
 
@@ -3576,9 +3578,9 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
 
     // checks dimensionality of array !IS_NULL. So if any array isn't passed-in,
-- 
2.43.0


From 8a305ca0ccbac70fcdd4b2c5f168fab12a95789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 044/120] fix: the optimizer doesn't form a pointer to
 camera_rt[-1]

---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index fdc458f..18be35d 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -4760,7 +4760,7 @@ void optimizer_callback(// input state
 
                 // input
                 intrinsics_all[icam_intrinsics],
-                &camera_rt[icam_extrinsics], &frame_rt,
+                icam_extrinsics < 0 ? NULL : &camera_rt[icam_extrinsics], &frame_rt,
                 ctx->calobject_warp == NULL ? NULL : &calobject_warp_local,
                 icam_extrinsics < 0,
                 &ctx->lensmodel, &ctx->precomputed,
@@ -5141,7 +5141,7 @@ void optimizer_callback(// input state
 
                 // input
                 intrinsics_all[icam_intrinsics],
-                &camera_rt[icam_extrinsics],
+                icam_extrinsics < 0 ? NULL : &camera_rt[icam_extrinsics],
 
                 // I only have the point position, so the 'rt' memory
                 // points 3 back. The fake "r" here will not be
-- 
2.43.0


From af32942e6df03c7ed98e3d8b4f4e3f726bc78d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 045/120] fix: optimize() refuses read-only arrays it would
 otherwise modify

---
 mrcal-pywrap.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 1cb9624..0008b7b 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1875,6 +1875,28 @@ PyObject* _optimize(optimizemode_t optimizemode,
         if(optimizemode == OPTIMIZEMODE_OPTIMIZE)
         {
             // we're wrapping mrcal_optimize()
+
+            // The solution is written into the given arrays
+#define CHECK_WRITEABLE(x, selected)                                    \
+            if((selected) && !IS_NULL(x) && PyArray_SIZE(x) > 0 &&      \
+               !PyArray_ISWRITEABLE(x))                                 \
+            {                                                           \
+                BARF(#x " is updated by the optimization, so it must be writeable"); \
+                goto done;                                              \
+            }
+            CHECK_WRITEABLE(intrinsics,
+                            problem_selections.do_optimize_intrinsics_core ||
+                            problem_selections.do_optimize_intrinsics_distortions);
+            CHECK_WRITEABLE(rt_cam_ref,         problem_selections.do_optimize_extrinsics);
+            CHECK_WRITEABLE(rt_ref_frame,       problem_selections.do_optimize_frames);
+            CHECK_WRITEABLE(points,             problem_selections.do_optimize_frames);
+            CHECK_WRITEABLE(calobject_warp,     problem_selections.do_optimize_calobject_warp);
+            CHECK_WRITEABLE(observations_board, problem_selections.do_apply_outlier_rejection);
+            CHECK_WRITEABLE(observations_point, problem_selections.do_apply_outlier_rejection);
+            CHECK_WRITEABLE(observations_point_triangulated,
+                            problem_selections.do_apply_outlier_rejection);
+#undef CHECK_WRITEABLE
+
             const int Npoints_fromBoards =
                 Nobservations_board *
                 calibration_object_width_n*calibration_object_height_n;
-- 
2.43.0


From 46390d5298917a282f87541e4c7de473dacbd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 046/120] fix: rectification_maps() doesn't leak the rectified
 intrinsics

---
 mrcal-pywrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 0008b7b..90d543e 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4310,6 +4310,7 @@ PyObject* _rectification_maps(PyObject* NPY_UNUSED(self),
 
     LENSMODEL_ONE_ARGUMENTS(FREE_PYARRAY, 0);
     LENSMODEL_ONE_ARGUMENTS(FREE_PYARRAY, 1);
+    LENSMODEL_ONE_ARGUMENTS(FREE_PYARRAY, _rectified);
     RECTIFICATION_MAPS_ARGUMENTS(FREE_PYARRAY);
 
     return result;
-- 
2.43.0


From f2e2f9aec72e6c7f2e6296803f1f86f026c2fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 047/120] fix: triangulate_...(get_gradients=True) without a
 solution reports gradients of 0 instead of uninitialized memory

---
 triangulation.cc | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index ffc857d..7365890 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -6,6 +6,7 @@
 //
 //     http://www.apache.org/licenses/LICENSE-2.0
 
+#include <string.h>
 #include "_autodiff.hh"
 #include "_attribute.h"
 
@@ -91,6 +92,22 @@ triangulate_assume_intersect( // output
 }
 
 
+// When there isn't a solution we return (0,0,0), regardless of the inputs. So all
+// the gradients are 0
+static
+mrcal_point3_t no_solution(// outputs; all may be NULL
+                           mrcal_point3_t* dm_dv0,
+                           mrcal_point3_t* dm_dv1,
+                           mrcal_point3_t* dm_dt01,
+                           // (3,N) gradient in dm_dt01
+                           const int N)
+{
+    if(dm_dv0  != NULL) memset(dm_dv0,  0, 3*3*sizeof(double));
+    if(dm_dv1  != NULL) memset(dm_dv1,  0, 3*3*sizeof(double));
+    if(dm_dt01 != NULL) memset(dm_dt01, 0, 3*N*sizeof(double));
+    return (mrcal_point3_t){0};
+}
+
 #warning "These all have NGRAD=9, which is inefficient: some/all of the requested gradients could be NULL"
 
 // Basic closest-approach-in-3D routine
@@ -160,13 +177,13 @@ mrcal_triangulate_geometric(// outputs
     val_withgrad_t<9> denom = dot_v0v0*dot_v1v1 - dot_v0v1*dot_v0v1;
     // The vectors aren't necessarily normalized
     if(!(denom.x > 1e-10 * dot_v0v0.x*dot_v1v1.x))
-        return (mrcal_point3_t){0};
+        return no_solution(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     val_withgrad_t<9> denom_recip = val_withgrad_t<9>(1.)/denom;
     val_withgrad_t<9> k0 = denom_recip * (dot_v1v1*dot_v0t - dot_v0v1*dot_v1t);
-    if(k0.x <= 0.0) return (mrcal_point3_t){0};
+    if(k0.x <= 0.0) return no_solution(_dm_dv0, _dm_dv1, _dm_dt01, 3);
     val_withgrad_t<9> k1 = denom_recip * (dot_v0v1*dot_v0t - dot_v0v0*dot_v1t);
-    if(k1.x <= 0.0) return (mrcal_point3_t){0};
+    if(k1.x <= 0.0) return no_solution(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     vec_withgrad_t<9,3> m = (v0*k0 + v1*k1 + t01) * 0.5;
 
@@ -401,7 +418,7 @@ mrcal_triangulate_lindstrom(// outputs
     // with that assumption
     vec_withgrad_t<18,3> m;
     if(!triangulate_assume_intersect(m, v0, Rv1, t01))
-        return (mrcal_point3_t){0};
+        return no_solution(_dm_dv0, _dm_dv1, _dm_dRt01, 12);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -479,7 +496,7 @@ mrcal_triangulate_leecivera_l1(// outputs
 
     vec_withgrad_t<9,3> m;
     if(!triangulate_assume_intersect(m, v0, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_solution(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -542,7 +559,7 @@ mrcal_triangulate_leecivera_linf(// outputs
     // with that assumption
     vec_withgrad_t<9,3> m;
     if(!triangulate_assume_intersect(m, v0, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_solution(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     mrcal_point3_t _m;
     m.extract_value(_m.xyz);
@@ -656,7 +673,7 @@ mrcal_triangulate_leecivera_mid2(// outputs
     val_withgrad_t<9> l1 = (cross_norm2<9>(v0, t01) * p_norm2_recip).sqrt();
 
     if(!chirality(l0, v0, l1, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_solution(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     vec_withgrad_t<9,3> m = (v0*l0 + t01+v1*l1) / 2.0;
 
@@ -731,7 +748,7 @@ mrcal_triangulate_leecivera_wmid2(// outputs
     val_withgrad_t<9> l1 = cross_mag<9>(v0, t01) * p_mag_recip;
 
     if(!chirality(l0, v0, l1, v1, t01))
-        return (mrcal_point3_t){0};
+        return no_solution(_dm_dv0, _dm_dv1, _dm_dt01, 3);
 
     vec_withgrad_t<9,3> m = (v0*l0*l1 + t01*l0 + v1*l0*l1) / (l0 + l1);
 
-- 
2.43.0


From 846fba05b96f4139b56a572dd8370239ecf3e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 048/120] fix: traverse_sensor_links() with no sensors does
 nothing instead of writing out of bounds

---
 traverse-sensor-links.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/traverse-sensor-links.c b/traverse-sensor-links.c
index 90eac1e..0a3016a 100644
--- a/traverse-sensor-links.c
+++ b/traverse-sensor-links.c
@@ -126,6 +126,10 @@ bool mrcal_traverse_sensor_links( const uint16_t Nsensors,
       i_parent as the previous sensor
 
     */
+    if(Nsensors == 0)
+        // nothing to visit
+        return true;
+
     mrcal_heap_node_t nodes[Nsensors];
     memset(nodes,0,sizeof(nodes[0])*Nsensors);
 
-- 
2.43.0


From d600d542153c19596091d12edaf03eb7333b06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 049/120] fix: corresponding_icam_extrinsics() makes sure the
 given index arrays are big enough

---
 mrcal-pywrap.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 90d543e..74948da 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3381,9 +3381,11 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     int icam_extrinsics;
 
-    if(Nobservations_board > 0 && indices_frame_camintrinsics_camextrinsics == NULL)
+    if(Nobservations_board > 0 &&
+       (IS_NULL(indices_frame_camintrinsics_camextrinsics) ||
+        PyArray_DIMS((PyArrayObject*)indices_frame_camintrinsics_camextrinsics)[0] < Nobservations_board))
     {
-        BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
+        BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics doesn't have that many rows. Some required arguments missing?");
         return NULL;
     }
     mrcal_observation_board_t c_observations_board[Nobservations_board];
@@ -3395,12 +3397,13 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     if(Nobservations_point > 0)
     {
-        if(indices_point_camintrinsics_camextrinsics == NULL)
+        if(IS_NULL(indices_point_camintrinsics_camextrinsics) ||
+           PyArray_DIMS((PyArrayObject*)indices_point_camintrinsics_camextrinsics)[0] < Nobservations_point)
         {
-            BARF("Have Nobservations_point > 0, but indices_point_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
+            BARF("Have Nobservations_point > 0, but indices_point_camintrinsics_camextrinsics doesn't have that many rows. Some required arguments missing?");
             return NULL;
         }
-        if(observations_point == NULL)
+        if(IS_NULL(observations_point))
         {
             BARF("Have Nobservations_point > 0, but observations_point == NULL. Some required arguments missing?");
             return NULL;
-- 
2.43.0


From 29e6ad533363032052013d571235d29685373a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 050/120] fix: the optimizer refuses Npoints_fixed<0

---
 mrcal-pywrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 74948da..5abc37b 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1198,6 +1198,11 @@ static bool optimize_validate_args( // out
     }
 
     int Npoints = PyArray_DIMS(points)[0];
+    if( Npoints_fixed < 0 )
+    {
+        BARF("Npoints_fixed=%d must be >= 0", Npoints_fixed);
+        return false;
+    }
     if( Npoints > 0 )
     {
         if(Npoints_fixed > Npoints)
-- 
2.43.0


From 295dbb50afa706a26f2aba540e2849ed5fea3c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 051/120] fix: optimize(verbose=True) with only the unity_cam01
 regularization reads past the end and aborts

---
 mrcal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 18be35d..147a48a 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6591,12 +6591,14 @@ mrcal_optimize( // out
             int Ncore = modelHasCore_fxfycxcy(lensmodel) ? 4 : 0;
 
             int Nmeasurements_regularization_distortion  = 0;
-            if(problem_selections.do_optimize_intrinsics_distortions)
+            if(problem_selections.do_apply_regularization &&
+               problem_selections.do_optimize_intrinsics_distortions)
                 Nmeasurements_regularization_distortion =
                     Ncameras_intrinsics*(ctx.Nintrinsics-Ncore);
 
             int Nmeasurements_regularization_centerpixel = 0;
-            if(problem_selections.do_optimize_intrinsics_core)
+            if(problem_selections.do_apply_regularization &&
+               problem_selections.do_optimize_intrinsics_core)
                 Nmeasurements_regularization_centerpixel =
                     Ncameras_intrinsics*2;
 
-- 
2.43.0


From 6926fb8b9cd856f64f85dbc0e621f3f9d6471e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 052/120] fix: align_procrustes_...() with non-finite data
 reports an error instead of hanging

---
 poseutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/poseutils.c b/poseutils.c
index 2c25b28..94bcb88 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1503,6 +1503,14 @@ bool _align_procrustes_vectors_R01(// out
                     M[j*3 + k] += (p0[i*3+j]-pmean0[j])*(p1[i*3+k]-pmean1[k])*weights[i];
 
 
+    for(int i=0; i<9; i++)
+        if(!isfinite(M[i]))
+        {
+            // dgesdd() may never return. This is a fatal error
+            R01[0] = 1.;
+            return false;
+        }
+
     double U[9];
     double Vt[9];
     double S[3];
-- 
2.43.0


From 2e52971096c113bd48dc52d6f9ae1ca4f5ce39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 053/120] fix: required arrays given as None produce an error
 instead of a crash

---
 mrcal-pywrap.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 5abc37b..35973af 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1017,6 +1017,11 @@ static bool lensmodel_one_validate_args( // out
 
     if(!parse_lensmodel_from_arg(mrcal_lensmodel, lensmodel))
         return false;
+    if(IS_NULL(intrinsics))
+    {
+        BARF("The intrinsics may not be None");
+        return false;
+    }
     int NlensParams      = mrcal_lensmodel_num_params(mrcal_lensmodel);
     int NlensParams_have = PyArray_DIMS(intrinsics)[PyArray_NDIM(intrinsics)-1];
     if( NlensParams != NlensParams_have )
@@ -1051,6 +1056,13 @@ static bool optimize_validate_args( // out
     OPTIMIZER_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
     CROSS_REPROJECTION_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
 
+    // The layout checks allow None, but these are required
+    if(IS_NULL(intrinsics) || IS_NULL(imagersizes))
+    {
+        BARF("'intrinsics' and 'imagersizes' are required; these may not be None");
+        return false;
+    }
+
     int Ncameras_intrinsics = PyArray_DIMS(intrinsics)[0];
     int Ncameras_extrinsics = PyArray_DIMS(rt_cam_ref)[0];
     if( PyArray_DIMS(imagersizes)[0] != Ncameras_intrinsics )
-- 
2.43.0


From 792c737f3c39c61677e462e09326a24266800fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 054/120] fix: the optimizer refuses boards without points
 instead of corrupting the stack

---
 mrcal-pywrap.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 35973af..f5f11bf 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1084,6 +1084,16 @@ static bool optimize_validate_args( // out
 
     if( Nobservations_board > 0)
     {
+        if( PyArray_DIMS(observations_board)[1] <= 0 ||
+            PyArray_DIMS(observations_board)[2] <= 0 )
+        {
+            BARF("We have board observations, so the board must contain at least one point. Instead observations_board.shape = (%ld,%ld,%ld,3)",
+                 PyArray_DIMS(observations_board)[0],
+                 PyArray_DIMS(observations_board)[1],
+                 PyArray_DIMS(observations_board)[2]);
+            return false;
+        }
+
         if( calibration_object_spacing <= 0.0 )
         {
             BARF("We have board observations, so calibration_object_spacing MUST be a valid float > 0");
-- 
2.43.0


From 5e71d868e734b823bcba0e1256fa3b5a98dffab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 055/120] fix: triangulated points observed twice from the
 reference produce an error instead of a crash

---
 mrcal-pywrap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index f5f11bf..abbed80 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1438,6 +1438,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
     int ipoint_current = -1;
     int Npoints_in_this_set = 0;
+    int Nref_in_this_set    = 0;
 
     // Needed for the unproject() below
     int                            Nintrinsics_state = 0;
@@ -1511,6 +1512,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
             ipoint_current = ipoint;
             Npoints_in_this_set = 1;
+            Nref_in_this_set    = 0;
         }
         else
         {
@@ -1518,6 +1520,13 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
                 i);
             return -1;
         }
+
+        if(icam_extrinsics < 0 && ++Nref_in_this_set > 1)
+        {
+            BARF("Error in indices_point_triangulated_camintrinsics_camextrinsics[%d]. Point %d is observed more than once by a camera at the reference: no triangulation is possible",
+                i, ipoint);
+            return -1;
+        }
     }
 
     if(!_finish_triangulated_set(c_observations_point_triangulated,
-- 
2.43.0


From d6e312b06b94438b4eddea956569ba74020547e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 056/120] fix: drt_cross_reprojection__dbpacked() doesn't read
 past the end of the jacobian

---
 uncertainty.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uncertainty.c b/uncertainty.c
index a69d978..1f6717a 100644
--- a/uncertainty.c
+++ b/uncertainty.c
@@ -773,10 +773,14 @@ static int get_Nstate_intrinsics_in_jacobian_row(const int* Jrowptr,
 
     while(true)
     {
+        // Nothing may be read past the end of the row. In particular, the
+        // jacobian could have no entries at all
+        if( ival >= Jrowptr[imeas+1] )
+            return ival;
+
         const int state_index = Jcolidx[ival];
 
-        if( ival < Jrowptr[imeas+1] &&
-            state_index_intrinsics0 <= state_index &&
+        if( state_index_intrinsics0 <= state_index &&
             state_index < state_index_intrinsics0 + Nstate_intrinsics )
         {
             ival++;
-- 
2.43.0


From c0e8d4bc3a77815236f84458319130eb51f6d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 057/120] fix: drt_cross_reprojection__dbpacked() without
 observations reports an error instead of reading out of bounds

---
 uncertainty.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uncertainty.c b/uncertainty.c
index 1f6717a..e2dfff1 100644
--- a/uncertainty.c
+++ b/uncertainty.c
@@ -876,6 +876,11 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
         mrcal_num_measurements_points(Nobservations_point);
 
     const int Nmeas_obs = Nmeas_boards + Nmeas_points;
+    if(Nmeas_obs <= 0)
+    {
+        MSG("No board or point observations: there's nothing to reproject");
+        return false;
+    }
 
     const int state_index_intrinsics0 =
         mrcal_state_index_intrinsics(0,
-- 
2.43.0


From 72c26be0507850daa1efc6a0c273df2c175ddd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 058/120] fix:
 indices_point_triangulated_camintrinsics_camextrinsics=None is the same as
 leaving it out

---
 mrcal-pywrap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index abbed80..d20b089 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1406,7 +1406,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
                                            const PyArrayObject* indices_point_triangulated_camintrinsics_camextrinsics)
 {
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         return 0;
 
     int result = -1;
@@ -3337,7 +3337,7 @@ static PyObject* callback_num_measurements(int i,
 
     int N = 0;
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics != NULL)
+    if(!IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         N = PyArray_DIM(indices_point_triangulated_camintrinsics_camextrinsics, 0);
     else
     {
@@ -3495,7 +3495,7 @@ static PyObject* callback_decode_observation_indices_points_triangulated(int ime
 {
 
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
     {
         BARF("No triangulated points in this solve. Nothing to decode");
         return NULL;
-- 
2.43.0


From 851c70aadbe93ddc00c4de89ee64ef3378be1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 059/120] fix: unproject() has no data race when called from
 several threads

---
 mrcal.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 147a48a..6e55ef2 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3285,16 +3285,9 @@ bool _mrcal_unproject_internal( // out
         //This needs to be precise; if it isn't, I barf. Shouldn't happen
         //very often
 
-        static bool already_complained = false;
         // MSG("norm2x = %g", norm2x);
         if(norm2x/2.0 > 1e-4)
         {
-            if(!already_complained)
-            {
-                // MSG("WARNING: I wasn't able to precisely compute some points. norm2x=%f. Returning nan for those. Will complain just once",
-                //     norm2x);
-                already_complained = true;
-            }
             double nan = strtod("NAN", NULL);
             out->xyz[0] = nan;
             out->xyz[1] = nan;
-- 
2.43.0


From 27dd95a91d33dda609862dd99996d159c2dc7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 060/120] fix: unproject() reports all nan if the optimizer
 failed

---
 mrcal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index 6e55ef2..740d78a 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3286,7 +3286,8 @@ bool _mrcal_unproject_internal( // out
         //very often
 
         // MSG("norm2x = %g", norm2x);
-        if(norm2x/2.0 > 1e-4)
+        // norm2x<0 if the optimizer failed. And it may be nan
+        if( !(norm2x >= 0.0 && norm2x/2.0 <= 1e-4) )
         {
             double nan = strtod("NAN", NULL);
             out->xyz[0] = nan;
-- 
2.43.0


From 1ac85d4519bee626f02d83e991cb931510aac5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 061/120] fix: the .cameramodel parser is thread-safe

---
 cameramodel-parser.re | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index 7d63fde..ac82622 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -57,7 +57,8 @@ typedef struct
   UNSIGNED_INT = "0"|[1-9][0-9]*;
 */
 
-/*!stags:re2c format = 'static const char *@@;'; */
+// thread-local: models may be parsed from multiple threads at the same time
+/*!stags:re2c format = 'static __thread const char *@@;'; */
 
 static bool string_is(const char* ref, string_t key)
 {
-- 
2.43.0


From 6017387a2652f586c18eaa47f9df9ea2cb71c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 062/120] fix: implied_Rt10__from_unprojections() gives the
 same result each time, and leaves the random number generator alone

---
 mrcal/model_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 030b5b3..58330eb 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -335,7 +335,10 @@ report a full Rt transformation with the t component set to 0
 
         # This is similar to a basic procrustes fit, but here we're using an L1
         # cost function
-        r = np.random.random(3) * 1e-5
+        #
+        # The seed is slightly off 0. I use a private random number generator to
+        # produce the same result every time, and to not affect the caller's
+        r = np.random.RandomState(0).random_sample(3) * 1e-5
 
         res = scipy.optimize.least_squares(residual,
                                            r,
@@ -367,7 +370,8 @@ report a full Rt transformation with the t component set to 0
 
     else:
 
-        rt = np.random.random(6) * 1e-5
+        # Private random number generator, as above
+        rt = np.random.RandomState(0).random_sample(6) * 1e-5
 
         res = scipy.optimize.least_squares(residual,
                                            rt,
-- 
2.43.0


From 1bfa40644ea9382eed2e4dfa661114acfd9435e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 063/120] fix: traverse_sensor_links(): honor the callback
 returning False; return True on success

As documented
---
 mrcal-pywrap.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index d20b089..2a6e7d5 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4383,8 +4383,11 @@ callback_sensor_link_C(const uint16_t idx_to, const uint16_t idx_from, void* coo
     if(result == NULL)
         return false;
 
+    // The callback returns False to indicate an error. Callbacks that don't
+    // return anything produce None: this isn't an error
+    const bool callback_success = (result != Py_False);
     Py_DECREF(result);
-    return true;
+    return callback_success;
 }
 static
 PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
@@ -4456,8 +4459,8 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
         }
     }
 
-    Py_INCREF(Py_None);
-    result = Py_None;
+    Py_INCREF(Py_True);
+    result = Py_True;
 
  done:
 
-- 
2.43.0


From a09f899539a763401e5946922d5e965b7b7dc60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 064/120] fix: traverse_sensor_links(): don't overflow the
 stack with thousands of sensors

---
 mrcal-pywrap.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 2a6e7d5..3f9f58c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4399,6 +4399,7 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
     int            Nsensors             = 0;
     PyArrayObject* connectivity_matrix  = NULL;
     PyObject*      callback_sensor_link = NULL;
+    uint16_t*      connectivity_matrix_upper = NULL;
 
     char* keywords[] = { "connectivity_matrix",
                          "callback_sensor_link",
@@ -4440,9 +4441,16 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
 
 
     {
-        // We reconstruct just the upper triangle of the connectivity_matrix
-        uint16_t connectivity_matrix_upper[Nsensors*(Nsensors-1)/2];
-        int k = 0;
+        // We reconstruct just the upper triangle of the connectivity_matrix.
+        // This could be too big for the stack. +1 to never ask for 0 bytes
+        connectivity_matrix_upper =
+            malloc( ((size_t)Nsensors*(size_t)(Nsensors-1)/2 + 1) * sizeof(connectivity_matrix_upper[0]));
+        if(connectivity_matrix_upper == NULL)
+        {
+            PyErr_NoMemory();
+            goto done;
+        }
+        size_t k = 0;
         for(int i=0; i<Nsensors; i++)
             for(int j=i+1; j<Nsensors; j++)
                 connectivity_matrix_upper[k++] =
@@ -4464,6 +4472,7 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
 
  done:
 
+    free(connectivity_matrix_upper);
     Py_XDECREF(connectivity_matrix);
     return result;
 }
-- 
2.43.0


From 6943ae4515af861d34127f10500ed77cb5cd5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 065/120] fix: stereo_pair_diff(): support CAHVORE, and don't
 modify the given models

---
 mrcal/model_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 58330eb..8087ba1 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2058,6 +2058,10 @@ A tuple
     else:
         atinfinity = False
 
+    # I might centralize the models below. I don't want to modify the caller's data
+    model_pairs = [ [ mrcal.cameramodel(model) for model in model_pair ] \
+                    for model_pair in model_pairs ]
+
     for model_pair in model_pairs:
         for model in model_pair:
             if not mrcal.lensmodel_metadata_and_config(model.intrinsics()[0])['noncentral']:
@@ -2067,7 +2071,7 @@ A tuple
 
             # CAHVORE. I know how to centralize this. If we're looking at
             # infinity, then this is ok
-            if np.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
+            if nps.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
                 intrinsics_data = model.intrinsics()[1]
                 intrinsics_data[-3:] = 0
                 model.intrinsics( intrinsics = (model.intrinsics()[0],
-- 
2.43.0


From 510fa49aa37a9aca31878de6ff1987630d772a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 066/120] fix: projection_diff() at infinity ignores the
 translation between the cameras

With focus_radius=0 or implied_Rt10 the results at infinity were computed 1m away
from the camera
---
 mrcal/model_analysis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 8087ba1..1e1e594 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1816,7 +1816,7 @@ A tuple
     if len(models) == 2:
         # Two models. Take the difference and call it good
         if implied_Rt10 is not None:
-            Rt10 = implied_Rt10
+            Rt10 = np.array(implied_Rt10, dtype=float)
 
         else:
             if intrinsics_only:
@@ -1853,6 +1853,10 @@ A tuple
                                                          focus_radius = focus_radius)
 
 
+        if atinfinity:
+            # translations have no effect at infinity
+            Rt10[3,:] = 0
+
         q1 = mrcal.project( mrcal.transform_point_Rt(Rt10,
                                                      # shape (len(distance),Nheight,Nwidth,3)
                                                      v[0,...] * distance),
@@ -1912,6 +1916,9 @@ A tuple
         Ncameras = len(v)
         # shape (Ncameras-1, 4,3)
         Rt10 = nps.cat(*[ get_Rt10(0,i) for i in range(1,Ncameras)])
+        if atinfinity:
+            # translations have no effect at infinity
+            Rt10[:,3,:] = 0
 
         # shape (Ncameras-1,len(distance),Nheight,Nwidth,2)
         grids = nps.cat(*[get_reprojections(q0, Rt10[i-1],
-- 
2.43.0


From 446010ba991cf925232563edd23fac008d71e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 067/120] fix: implied_Rt10__from_unprojections() supports
 multiple leading dimensions, as documented

---
 mrcal/model_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 1e1e594..9c3930f 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -178,6 +178,7 @@ report a full Rt transformation with the t component set to 0
     p0 = nps.transpose(nps.clump(nps.mv( nps.atleast_dims(p0, -3),
                                          -1,-3),
                                  n=-2))
+    p0 = nps.clump(p0, n=p0.ndim-2)
     # shape (N,3)
     v1 = nps.clump(v1, n=v1.ndim-1)
 
-- 
2.43.0


From d7bbe226ffdb678f1f04f87c7c6b92bb574706ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 068/120] fix: projection_diff() works with CAHVORE models with
 a tiny E

---
 mrcal/model_analysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 9c3930f..56d1c68 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1767,8 +1767,11 @@ A tuple
     intrinsics_data = [model.intrinsics()[1] for model in models]
 
     for i in range(len(models)):
-        if mrcal.lensmodel_metadata_and_config(lensmodels[i])['noncentral'] and not \
-           (re.match("LENSMODEL_CAHVORE_",models[i].intrinsics()[0]) and nps.norm2(models[i].intrinsics()[1][-3:]) < 1e-12):
+        if mrcal.lensmodel_metadata_and_config(lensmodels[i])['noncentral']:
+            if re.match("LENSMODEL_CAHVORE_",lensmodels[i]) and nps.norm2(intrinsics_data[i][-3:]) < 1e-12:
+                # Effectively central. unproject() needs E to be exactly 0
+                intrinsics_data[i][-3:] = 0
+                continue
             if not atinfinity:
                 raise Exception(f"Model {i} is noncentral, so I can only evaluate the diff at infinity")
             if re.match("LENSMODEL_CAHVORE_",lensmodels[i]):
-- 
2.43.0


From 18302f9f39aac1563cd12cae5e9d1a0391193b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 069/120] fix: implied_Rt10__from_unprojections() ignores the
 points that couldn't be unprojected

These are reported as 0 vectors by unproject(normalize=True). The fit at a finite
distance was completely broken if there were any
---
 mrcal/model_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 56d1c68..4c063b3 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -211,6 +211,14 @@ report a full Rt transformation with the t component set to 0
     weights[..., i_nan_v1[...,1]] = 0.0
     weights[..., i_nan_v1[...,2]] = 0.0
 
+    # unproject(normalize=True) indicates failures with 0 vectors
+    i_zero_p0 = nps.norm2(p0) == 0.
+    i_zero_v1 = nps.norm2(v1) == 0.
+    weights[i_zero_p0]      = 0.0
+    weights[..., i_zero_v1] = 0.0
+    p0[i_zero_p0]           = np.array((0.,0.,1.))
+    v1[i_zero_v1]           = np.array((0.,0.,1.))
+
     # We try to match the geometry in a particular region
     q_off_center = q0 - focus_center
     i = nps.norm2(q_off_center) < focus_radius*focus_radius
-- 
2.43.0


From 0d3c6900a2204e0ae3516b7fec03fa37a9d98bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 070/120] fix: projection_diff(), stereo_pair_diff() report nan
 for pixels that couldn't be unprojected

These were reporting finite but meaningless differences
---
 mrcal/model_analysis.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 4c063b3..0c96794 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1799,6 +1799,10 @@ A tuple
                                          lensmodels, intrinsics_data,
                                          normalize = True)
 
+    # unproject(normalize=True) indicates failures with 0 vectors. These don't
+    # represent any direction, and I must not report diffs there
+    v[nps.norm2(v) == 0.] = np.nan
+
     uncertainties = None
     if use_uncertainties and \
        not intrinsics_only and focus_radius != 0 and \
@@ -2115,14 +2119,16 @@ A tuple
     Rt10_Rt01_pairs = (Rt10_pairs,
                        mrcal.invert_Rt(Rt10_pairs))
 
-    reproject_pairp_from_cami = \
-        lambda q,p,i: \
-        mrcal.project( mrcal.transform_point_Rt(Rt10_Rt01_pairs[i][p],
-                                                distance *
-                                                mrcal.unproject(q,
-                                                                *model_pairs[p][i].intrinsics(),
-                                                                normalize = True)),
-                       *model_pairs[p][1-i].intrinsics() )
+    def reproject_pairp_from_cami(q,p,i):
+        v = mrcal.unproject(q,
+                            *model_pairs[p][i].intrinsics(),
+                            normalize = True)
+        # unproject(normalize=True) indicates failures with 0 vectors. These
+        # don't represent any direction, and I must not report diffs there
+        v[nps.norm2(v) == 0.] = np.nan
+        return mrcal.project( mrcal.transform_point_Rt(Rt10_Rt01_pairs[i][p],
+                                                       distance * v),
+                              *model_pairs[p][1-i].intrinsics() )
 
     q0 = mrcal.sample_imager(gridn_width, gridn_height,
                              *imagersizes0)
-- 
2.43.0


From e98a969e14b7574eb50005542832f3e86c356a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 071/120] fix: projection_diff(), stereo_pair_diff() with
 CAHVORE report nan for pixels that couldn't be unprojected

---
 mrcal/model_analysis.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 0c96794..92b9109 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1535,6 +1535,18 @@ else:                    we return an array of shape (...)
                                            optimization_inputs        = optimization_inputs)
 
 
+def _project_or_nan(p, lensmodel, intrinsics_data):
+    r'''project(), reporting nan for any non-finite p
+
+    Projecting a non-finite point reports nan with most models, but not with
+    LENSMODEL_CAHVORE: it reports q=0
+
+    '''
+    q = mrcal.project(p, lensmodel, intrinsics_data)
+    q[~np.all(np.isfinite(p), axis=-1)] = np.nan
+    return q
+
+
 def projection_diff(models,
                     *,
                     implied_Rt10 = None,
@@ -1873,7 +1885,7 @@ A tuple
             # translations have no effect at infinity
             Rt10[3,:] = 0
 
-        q1 = mrcal.project( mrcal.transform_point_Rt(Rt10,
+        q1 = _project_or_nan( mrcal.transform_point_Rt(Rt10,
                                                      # shape (len(distance),Nheight,Nwidth,3)
                                                      v[0,...] * distance),
                             lensmodels[1], intrinsics_data[1])
@@ -1922,7 +1934,7 @@ A tuple
                                                  focus_radius = focus_radius)
         def get_reprojections(q0, Rt10,
                               lensmodel, intrinsics_data):
-            q1 = mrcal.project(mrcal.transform_point_Rt(Rt10,
+            q1 = _project_or_nan(mrcal.transform_point_Rt(Rt10,
                                                         # shape (len(distance),Nheight,Nwidth,3)
                                                         v[0,...]*distance),
                                lensmodel, intrinsics_data)
@@ -2126,7 +2138,7 @@ A tuple
         # unproject(normalize=True) indicates failures with 0 vectors. These
         # don't represent any direction, and I must not report diffs there
         v[nps.norm2(v) == 0.] = np.nan
-        return mrcal.project( mrcal.transform_point_Rt(Rt10_Rt01_pairs[i][p],
+        return _project_or_nan( mrcal.transform_point_Rt(Rt10_Rt01_pairs[i][p],
                                                        distance * v),
                               *model_pairs[p][1-i].intrinsics() )
 
-- 
2.43.0


From e5868a008bf2c117932eea51d0e6924caef88acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 072/120] fix: scale_focal__best_pinhole_fit() handles points
 exactly at the optical axis

A point at x=0 or y=0 imposes no constraint on the scale. Previously we divided
by 0 and returned -inf
---
 mrcal/image_transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index d39c316..cee63c6 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -142,8 +142,9 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
     scale = 1e6
     for p in normxy_edges:
         for ixy in range(2):
-            if p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
-            else:          scale = np.min((scale,normxy_min[ixy]/p[ixy]))
+            if   p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
+            elif p[ixy] < 0: scale = np.min((scale,normxy_min[ixy]/p[ixy]))
+            # p[ixy]==0 is in-bounds at any scale: no constraint
     return scale
 
 
-- 
2.43.0


From cde59a63c8417f3369da656d1040f4a28a92c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 073/120] fix: scale_focal__best_pinhole_fit() refuses points
 that a pinhole model cannot represent

Points at or behind the z=0 plane silently produced a meaningless scale
---
 mrcal/image_transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index cee63c6..170f116 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -129,6 +129,9 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
     # imager as possible. I can look at just the normalized x and y. Just one of
     # the query points should land on the edge; the rest should be in-bounds
 
+    if not np.all(v_edges[:,2] > 0):
+        raise Exception("Some of the points to fit do not lie in front of the camera: no pinhole model can represent them")
+
     normxy_edges = v_edges[:,:2] / v_edges[:,(2,)]
     normxy_min   = (      - cxy) / fxy
     normxy_max   = (WH-1. - cxy) / fxy
-- 
2.43.0


From 593a76568e5651a130cc54f2edc5ec3515d79c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 074/120] fix: image_transformation_map() handles planes with
 plane_d < 0

The vectors we produced pointed in the opposite direction
---
 mrcal/image_transforms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 170f116..8243fd3 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -487,6 +487,14 @@ This array can be passed to mrcal.transform_image()
         # The homography definition. Derived in many places. For instance in
         # "Motion and structure from motion in a piecewise planar environment"
         # by Olivier Faugeras, F. Lustman.
+        #
+        # (n,d) and (-n,-d) describe the same plane, but the homography of the
+        # latter flips the direction of the vectors it produces. So I use the
+        # representation with d>0: vectors in front of one camera then map to
+        # vectors in front of the other
+        if plane_d < 0:
+            plane_d = -plane_d
+            plane_n = -np.array(plane_n)
         A_to_from = plane_d * R_to_from + nps.outer(t_to_from, plane_n)
         A_from_to = np.linalg.inv(A_to_from)
         v = nps.matmult( v, nps.transpose(A_from_to) )
-- 
2.43.0


From c10560035aabb463b3765cfcccef8a549c21d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 075/120] fix: pinhole_model_for_reprojection(scale_image)
 supports models with cx=0 or cy=0

We were dividing by the center pixel
---
 mrcal/image_transforms.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 8243fd3..9e5613d 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -264,12 +264,10 @@ the input model.
         imagersize[0] = round(imagersize[0]*scale_image)
         imagersize[1] = round(imagersize[1]*scale_image)
         kfxy = scale_image
-        kcx  = (kfxy + 2.*cx*kfxy - 1.) / (2. * cx)
-        kcy  = (kfxy + 2.*cy*kfxy - 1.) / (2. * cy)
-
+        # kc*cxy is well-defined even if cxy is 0, so I compute that directly
         intrinsics_data[:2] *= kfxy
-        intrinsics_data[2]  *= kcx
-        intrinsics_data[3]  *= kcy
+        intrinsics_data[2]   = (kfxy + 2.*cx*kfxy - 1.) / 2.
+        intrinsics_data[3]   = (kfxy + 2.*cy*kfxy - 1.) / 2.
 
     return \
         mrcal.cameramodel( intrinsics            = ('LENSMODEL_PINHOLE',intrinsics_data[:4]),
-- 
2.43.0


From a999ef5cf78483b49bfb3edca17973a25ddbd606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 076/120] fix: make_perfect_observations() preserves the
 outliers

Previously adding noise set all the non-positive weights to 1, turning all the
outliers into inliers
---
 mrcal/synthetic_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index f473af2..9d04e76 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -742,8 +742,10 @@ None
                 observed_pixel_uncertainty * \
                 np.random.randn(*optimization_inputs[what][...,:2].shape)
 
-            weight = nps.dummy( optimization_inputs[what][...,2],
-                                axis = -1 )
+            # I make a copy: the non-positive weights in the observations
+            # indicate outliers, and must be preserved
+            weight = np.array(nps.dummy( optimization_inputs[what][...,2],
+                                         axis = -1 ))
             weight[ weight<=0 ] = 1. # to avoid dividing by 0
 
             optimization_inputs[what][...,:2] += \
-- 
2.43.0


From 8b1e41706c731ed018efc6d935ec76eed3f592eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 077/120] fix: scale_focal__best_pinhole_fit() refuses requests
 that cannot be satisfied

If the optical axis is not inside the imager, we could return a scale that is 0 or
negative
---
 mrcal/image_transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 9e5613d..a692a79 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -148,6 +148,10 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
             if   p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
             elif p[ixy] < 0: scale = np.min((scale,normxy_min[ixy]/p[ixy]))
             # p[ixy]==0 is in-bounds at any scale: no constraint
+
+    if not scale > 0:
+        # The optical axis is at the edge of the imager or beyond it
+        raise Exception("There is no focal length scale that brings all the points to fit in-bounds")
     return scale
 
 
-- 
2.43.0


From 35c6dc20669813f352f2956201de1629cb532e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 078/120] fix: mrcal-to-kalibr writes correct distortion_coeffs

We were overwriting the intrinsics with a string before reading the distortions
from them, so the distortion_coeffs were a list of the characters in that string
---
 mrcal-to-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-to-kalibr b/mrcal-to-kalibr
index 4e307de..e1f8977 100755
--- a/mrcal-to-kalibr
+++ b/mrcal-to-kalibr
@@ -143,15 +143,15 @@ def convert_one(i, model_filename):
 
     if   lensmodel_type == 'LENSMODEL_OPENCV4':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'radtan'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     elif lensmodel_type == 'LENSMODEL_PINHOLE':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'none'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     else:
         # cahvor(e)
-- 
2.43.0


From 51537dd3f14ffb727c0d1218d3bd46ac1922e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 079/120] fix: mrcal-from-kalibr can read numbers such as 1e-05

yaml interprets these as strings. mrcal-to-kalibr writes such numbers. The cahvor
models given with integers also failed to load
---
 mrcal-from-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index a7acb8f..4906dcd 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -217,7 +217,7 @@ def convert_one(d,name):
                   file=sys.stderr)
             sys.exit(1)
 
-        intrinsics = np.array(d['intrinsics'])
+        intrinsics = np.array(d['intrinsics'], dtype=float)
 
         if d['camera_model'] == 'cahvor':
             if intrinsics.size != 6*3:
@@ -259,7 +259,7 @@ def convert_one(d,name):
         Rt_cam_camprev = mrcal.identity_Rt()
 
     else:
-        T_cn_cnm1 = np.array(d['T_cn_cnm1'])
+        T_cn_cnm1 = np.array(d['T_cn_cnm1'], dtype=float)
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-- 
2.43.0


From 07d74a7d13ecaff82cd9282757274a5cf4d20da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 080/120] fix: mrcal-from-kalibr reports failure when given an
 invalid T_cn_cnm1

---
 mrcal-from-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index 4906dcd..ba42978 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -263,11 +263,11 @@ def convert_one(d,name):
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
         if np.any(T_cn_cnm1[3,:] - np.array((0,0,0,1))):
             print(f"ERROR: T_cn_cnm1 must have a last row of (0,0,0,1); got {T_cn_cnm1[3,:]}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
 
         # The documentation is here:
         #
-- 
2.43.0


From f371587c403a6130968410528349db522a93c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 081/120] fix: .cahvor files with an integer-valued A can be
 read

The in-place division failed
---
 mrcal/cahvor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index b28248f..9246715 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -77,7 +77,7 @@ massive hack, so I'm not documenting this
 
     # normalize optical axis. Mostly this is here to smooth out ASCII roundoff
     # errors
-    A /= nps.mag(A)
+    A = A / nps.mag(A)
     fx,fy,cx,cy,Hp,Vp = _HVs_HVc_HVp(A,H,V)
 
     # By construction Hp and Vp will both be orthogonal to A. But CAHVOR allows
-- 
2.43.0


From a785eee360a6ba10328fdc25851ca70936bb190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 082/120] fix: CAHVORE models with any linearity can be written
 to .cahvor files

Negative linearities and ones that need an exponent were refused
---
 mrcal/cahvor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index 9246715..f1fa385 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -231,7 +231,7 @@ def _read(s, name):
     #   CAHVORE1
     #   CAHVORE2
     #   CAHVORE3,0.44
-    m = re.match(r'CAHVORE\s*([0-9]+)(\s*,\s*([0-9\.e-]+))?',x['Model'])
+    m = re.match(r'CAHVORE\s*([0-9]+)(\s*,\s*([-+0-9\.eE]+))?',x['Model'])
     if m:
         modelname = x['Model']
         is_cahvore = True
@@ -293,7 +293,7 @@ def _deconstruct_model(model):
     x = dict()
 
     lensmodel,intrinsics = model.intrinsics()
-    m = re.match(r'^LENSMODEL_CAHVORE_linearity=([0-9\.]+)$', lensmodel)
+    m = re.match(r'^LENSMODEL_CAHVORE_linearity=([-+0-9\.eE]+)$', lensmodel)
     if m is not None:
         x['cahvore_linearity'] = float(m.group(1))
     else:
-- 
2.43.0


From 7fbb7ab1535fd5ef6c8515da4501eebfee80f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 083/120] fix: refusing to write a .cahvor file does not
 clobber an existing file

We were opening and truncating the file before finding out that the model cannot be
stored as a .cahvor
---
 mrcal/cahvor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index f1fa385..1c313e5 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -33,6 +33,7 @@ reason to use this module.
 
 import sys
 import re
+import io
 
 import numpy     as np
 import numpysane as nps
@@ -411,8 +412,13 @@ def write(f, m, note=None):
     r'''Writes a cameramodel as a .cahvor to a filename or a writeable file object'''
 
     if type(f) is str:
+        # I generate the data before touching the file on disk: unsupported
+        # models throw an exception, and should have no effect on this file
+        data = io.StringIO()
+        _write(data, m, note)
         with open(f, 'w') as openedfile:
-            return _write(openedfile, m, note)
+            openedfile.write(data.getvalue())
+        return True
 
     return _write(f, m)
 
-- 
2.43.0


From 16d8fe9bf436c44a4c1759556ada8b97de75314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 084/120] fix: the ROS model reader uses the
 rectification_matrix

This is what the rotation is called in ROS .yaml files. It was ignored, and an
identity rotation was silently used instead
---
 mrcal/cameramodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index f5d8614..d6c98d0 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1084,7 +1084,9 @@ general function is used to find the data. The args are:
 
                 try:
                     R,R_at = \
-                        find_array( ( ('rotation','data'),
+                        find_array( ( ('rectification_matrix','data'),
+                                      ('rectification_matrix',),
+                                      ('rotation','data'),
                                       ('rotation',),
                                       ('R',) ),
                                     dtype = float,
-- 
2.43.0


From 74fc74d65a08b67a0c230896e2ac26d22ce9b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 085/120] fix: the ROS model reader does not ignore unparseable
 rotations

An identity rotation was silently used instead
---
 mrcal/cameramodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index d6c98d0..6596bba 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1082,7 +1082,8 @@ general function is used to find the data. The args are:
                    P[2,3] != 0:
                     raise CameramodelParseException(f"model {P_at} expected to have last column of [x*fx,0,0], but instead have: {P[:,3]}")
 
-                try:
+                # The rotation is optional. But if we have one, it must be valid
+                if any(k in model_in for k in ('rectification_matrix','rotation','R')):
                     R,R_at = \
                         find_array( ( ('rectification_matrix','data'),
                                       ('rectification_matrix',),
@@ -1092,7 +1093,7 @@ general function is used to find the data. The args are:
                                     dtype = float,
                                     shape = (3,3),
                                     model = model_in )
-                except:
+                else:
                     R = mrcal.identity_R()
                     R_at = 'default'
 
-- 
2.43.0


From 97efdf200a7d2bec06cec8ba17f0e248157e87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 086/120] fix: mrcal-from-ros, mrcal-from-cahvor,
 mrcal-to-cahvor process all of the given models

Any models given after one that needed no conversion were silently ignored
---
 mrcal-from-cahvor | 2 +-
 mrcal-from-ros    | 2 +-
 mrcal-to-cahvor   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal-from-cahvor b/mrcal-from-cahvor
index ddf3675..c967014 100755
--- a/mrcal-from-cahvor
+++ b/mrcal-from-cahvor
@@ -88,7 +88,7 @@ for model in args.model:
         if extension.lower() == '.cameramodel':
             print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-from-ros b/mrcal-from-ros
index f36b75b..abd4bd7 100755
--- a/mrcal-from-ros
+++ b/mrcal-from-ros
@@ -140,7 +140,7 @@ for model in args.model:
         if extension.lower() == '.cameramodel':
             print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-to-cahvor b/mrcal-to-cahvor
index 46fe5d8..42fec6b 100755
--- a/mrcal-to-cahvor
+++ b/mrcal-to-cahvor
@@ -85,7 +85,7 @@ for model in args.model:
         if extension.lower() == '.cahvor':
             print("Input file is already in the cahvor format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
-- 
2.43.0


From bc481f2020748ea61fb85b1c555a1259a137a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 087/120] fix: a ROS JSON camera model that looks like a Python
 dict is readable

---
 mrcal/cameramodel.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 6596bba..98dd104 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -592,6 +592,9 @@ A sample valid .cameramodel file:
             else:
                 raise CameramodelParseException(f"Failed to parse cameramodel '{name}'")
 
+        if not isinstance(model, dict):
+            raise CameramodelParseException("The model must be a dict")
+
         # for legacy compatibility
         def renamed(name_from, name_to, d,
                     *,
@@ -618,8 +621,6 @@ A sample valid .cameramodel file:
         renamed('icam_intrinsics_optimization_inputs',
                 'icam_intrinsics',
                 model)
-        model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
-
         renamed('extrinsics', 'rt_cam_ref',
                 model,
                 check_equal = True)
@@ -631,9 +632,11 @@ A sample valid .cameramodel file:
                              'rt_cam_ref',
                              'imagersize'))
         keys_received = set(model.keys())
-        if keys_received < keys_required:
-            raise Exception("Model must have at least these keys: '{}'. Instead I got '{}'". \
-                            format(keys_required, keys_received))
+        if not keys_required <= keys_received:
+            raise CameramodelParseException("Model must have at least these keys: '{}'. Instead I got '{}'". \
+                                            format(keys_required, keys_received))
+
+        model['lensmodel'] = model['lensmodel'].replace('DISTORTION', 'LENSMODEL')
 
         valid_intrinsics_region = None
         if 'valid_intrinsics_region' in model:
-- 
2.43.0


From 2d223485b0d1ba13b3e4abfe8098aed0fb278a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 088/120] fix: a failed cameramodel.write() does not clobber an
 existing file

---
 mrcal/cameramodel.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 98dd104..9844b03 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1468,15 +1468,19 @@ projection_matrix:
         elif _opencv: write_function = write_opencv
 
         if isinstance(f, str):
+            # Generate everything before opening the file, so that a failed write
+            # doesn't clobber what was there
+            s = io.StringIO()
+            if write_function is not None:
+                write_function(s)
+            elif re.match(r".*\.cahv(or(e)?)?$", f):
+                write_cahvor(s)
+            elif re.match(r".*\.ya?ml$", f):
+                write_opencv(s)
+            else:
+                self._write( s, note )
             with open(f, 'w') as openedfile:
-                if write_function is not None:
-                    write_function(openedfile)
-                elif re.match(r".*\.cahv(or(e)?)?$", f):
-                    write_cahvor(openedfile)
-                elif re.match(r".*\.ya?ml$", f):
-                    write_opencv(openedfile)
-                else:
-                    self._write( openedfile, note )
+                openedfile.write(s.getvalue())
         else:
             if write_function is not None:
                 write_function(f)
-- 
2.43.0


From 1e476ef9727fc24a2efad402cad1f1b1fc13d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 089/120] fix: cahvor.write() to an open file writes the note

---
 mrcal/cahvor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index 1c313e5..e180069 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -420,7 +420,7 @@ def write(f, m, note=None):
             openedfile.write(data.getvalue())
         return True
 
-    return _write(f, m)
+    return _write(f, m, note)
 
 def read_transforms(f):
     r'''Reads a file (a filename string, or a file-like object: an iterable
-- 
2.43.0


From ca8cb0aaaa5ac90d5c8ef6eb19f72b6ce6c07d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 090/120] fix: mapping_file_framenocameraindex() works if the
 frame numbers share leading or trailing digits

---
 mrcal/utils.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 5316a50..ef3ba18 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -883,6 +883,13 @@ from the filename.
             return [0]
 
         leading,trailing = get_longest_leading_trailing_substrings(files)
+
+        # The digits at the edges are a part of the number we're looking for. And
+        # if they weren't removed, the leading and trailing strings could overlap:
+        # the strings common to (img5.jpg,img15.jpg) are "img" and "5.jpg"
+        leading  = re.sub('[0-9]*$','', leading)
+        trailing = re.sub('^[0-9]*','', trailing)
+
         Nleading  = len(leading)
         Ntrailing = len(trailing)
 
@@ -901,21 +908,9 @@ from the filename.
                                 format(f, f[Nleading:Itrailing],
                                        leading, trailing))
 
-        # Alrighty. The centers are all numeric. I gather all the digits around the
-        # centers, and I'm done
-        m = re.match("^(.*?)([0-9]*)$", leading)
-        if m:
-            pre_numeric = m.group(2)
-        else:
-            pre_numeric = ''
-
-        m = re.match("^([0-9]*)(.*?)$", trailing)
-        if m:
-            post_numeric = m.group(1)
-        else:
-            post_numeric = ''
-
-        return [int(pre_numeric + f[Nleading:Itrailing] + post_numeric) for f in files]
+        # Alrighty. The centers are all numeric, and contain all the digits. I'm
+        # done
+        return [int(f[Nleading:Itrailing]) for f in files]
 
 
 
-- 
2.43.0


From 41a0d94d3215a23a552bdc48d409b0ed25abccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 091/120] fix: compute_chessboard_corners() reports correct
 paths if corners_cache_vnl is in the current directory

---
 mrcal/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index e9c2cf8..1084e4a 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -333,7 +333,7 @@ which mrcal.optimize() expects
                     elif corners_dir is not None      and \
                          context['f'][0] != '/'       and \
                          not os.path.exists(context['f']):
-                        filename_canonical = f"{corners_dir}/{context['f']}"
+                        filename_canonical = os.path.join(corners_dir, context['f'])
                     else:
                         filename_canonical = os.path.normpath(context['f'])
 
-- 
2.43.0


From eaf3bcef8ae185529b18f3534e828934919ba0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 092/120] fix: compute_chessboard_corners() refuses non-finite
 data

---
 mrcal/calibration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 1084e4a..5579300 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -383,6 +383,9 @@ which mrcal.optimize() expects
                 except:
                     raise Exception(f"'corners.vnl' data rows must lead with 'filename x y' with x and y being numerical or '-'. Instead got line '{line}'")
 
+                if not (np.isfinite(out[0]) and np.isfinite(out[1])):
+                    raise Exception(f"'corners.vnl' data rows must lead with 'filename x y' with x and y being finite or '-'. Instead got line '{line}'")
+
                 if out[0] < 0 or out[1] < 0:
                     # out[:] already is invalid
                     return False
@@ -401,6 +404,9 @@ which mrcal.optimize() expects
                 except:
                     raise Exception(f"'corners.vnl' data rows expected as 'filename x y {weight_column_kind}' with {weight_column_kind} being numerical or '-'. Instead got line '{line}'")
 
+                if not np.isfinite(w):
+                    raise Exception(f"'corners.vnl' data rows expected as 'filename x y {weight_column_kind}' with {weight_column_kind} being finite or '-'. Instead got line '{line}'")
+
                 if weight_column_kind == 'weight':
                     if w <= 0.0:
                         # out[:] already is invalid
-- 
2.43.0


From d12db074bcba41e063e9b52907e68ef2cfa50b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 093/120] fix: seed_stereographic() accepts a length-1 array as
 the focal_estimate

---
 mrcal/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 5579300..4f1ecd0 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1540,7 +1540,7 @@ We return a tuple:
         focal_estimate = (focal_estimate,)
 
     if Nfocal == 1:
-        focal_estimate = focal_estimate * Ncameras
+        focal_estimate = [focal_estimate[0]] * Ncameras
     elif Nfocal == Ncameras:
         # already good
         pass
-- 
2.43.0


From 72c2969a5e0bc828739b4e419f44a1384acd12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 094/120] fix: compute_chessboard_corners() does not hang if
 mrgingham writes lots to stderr

---
 mrcal/calibration.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 4f1ecd0..1627716 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -196,7 +196,7 @@ which mrcal.optimize() expects
     import fnmatch
     import subprocess
     import shutil
-    from tempfile import mkstemp
+    from tempfile import mkstemp,TemporaryFile
     import io
     import copy
 
@@ -291,7 +291,10 @@ which mrcal.optimize() expects
                 pipe_corners_write_fd,pipe_corners_write_tmpfilename = mkstemp('.vnl')
                 sys.stderr.write(f"Will save corners to '{corners_cache_vnl}'\n")
 
-            corners_output = subprocess.Popen(args_mrgingham, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
+            # stderr goes to a file and not a pipe: I read it only at the end, and a
+            # full pipe would block mrgingham forever
+            corners_stderr = TemporaryFile(mode='w+', encoding='utf-8', errors='replace')
+            corners_output = subprocess.Popen(args_mrgingham, stdout=subprocess.PIPE, stderr=corners_stderr,
                                               encoding='ascii')
             pipe_corners_read = corners_output.stdout
 
@@ -436,7 +439,8 @@ which mrcal.optimize() expects
             sys.stderr.write("Done computing chessboard corners\n")
 
             if corners_output.wait() != 0:
-                err = corners_output.stderr.read()
+                corners_stderr.seek(0)
+                err = corners_stderr.read()
                 raise Exception(f"mrgingham failed: {err}")
             if pipe_corners_write_fd is not None:
                 os.close(pipe_corners_write_fd)
-- 
2.43.0


From bde66e9289f77114c7f6eec47f2401c4a65dd1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 095/120] fix: the PnP solver looks at the object, not at the
 origin of its coordinate system

---
 mrcal/calibration.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 1627716..330ae23 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -582,9 +582,16 @@ pinhole pixel observations. Like opengv
                                           observations_local,
                                           camera_matrix,
                                           None)
+
+        # The origin of the object coordinate system doesn't need to be anywhere
+        # near the object, so I can't just look at tvec
+        def is_behind_camera():
+            return mrcal.transform_point_rt(nps.glue(rvec.ravel(), tvec.ravel(), axis=-1),
+                                            np.mean(ref_object, axis=0))[2] <= 0
+
         if not result:
             raise Exception(f"solvePnP() failed! Cannot estimate initial extrinsics for {what}")
-        if tvec[2] <= 0:
+        if is_behind_camera():
 
             # The object ended up behind the camera. I flip it, and try to solve
             # again
@@ -596,8 +603,8 @@ pinhole pixel observations. Like opengv
                                             useExtrinsicGuess = True)
             if not result:
                 raise Exception(f"Retried solvePnP() failed! Cannot estimate initial extrinsics for {what}")
-            if tvec[2] <= 0:
-                raise SolvePnPerror_negz(f"Retried solvePnP() insists that tvec.z <= 0 (i.e. the chessboard is behind us). Cannot estimate initial extrinsics for {what}")
+            if is_behind_camera():
+                raise SolvePnPerror_negz(f"Retried solvePnP() insists that z <= 0 (i.e. the chessboard is behind us). Cannot estimate initial extrinsics for {what}")
 
         Rt_cam_points = mrcal.Rt_from_rt(nps.glue(rvec.ravel(), tvec.ravel(), axis=-1))
 
-- 
2.43.0


From 5c82e5c51d60e64d7f48b5866e0dd1af585a9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 096/120] fix: align_procrustes_points_Rt01() minimizes the
 documented weighted cost

---
 mrcal/utils.py | 17 ++++++++++++++---
 poseutils.c    | 31 +++++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index ef3ba18..f75ae56 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -45,10 +45,21 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     p0 = nps.transpose(p0)
     p1 = nps.transpose(p1)
 
+    # The weights apply to the residuals. So the cost contains w^2, and the
+    # centroids are weighted by w^2
+    w2     = weights*weights
+    sum_w2 = np.sum(w2)
+    if sum_w2 == 0:
+        # Poorly-defined problem. Return error
+        return np.zeros((4,3), dtype=float)
+
+    pmean0 = np.sum(p0*w2, axis=-1)[..., np.newaxis] / sum_w2
+    pmean1 = np.sum(p1*w2, axis=-1)[..., np.newaxis] / sum_w2
+
     # I process Mt instead of M to not need to transpose anything later, and to
     # end up with contiguous-memory results
-    Mt = nps.matmult(              (p0 - np.mean(p0, axis=-1)[..., np.newaxis])*weights,
-                      nps.transpose(p1 - np.mean(p1, axis=-1)[..., np.newaxis]))
+    Mt = nps.matmult(              (p0 - pmean0)*w2,
+                      nps.transpose(p1 - pmean1))
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
@@ -69,7 +80,7 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     # Now that I have my optimal R, I compute the optimal t. From before:
     #
     #   t = mean(a) - R mean(b)
-    t = np.mean(p0, axis=-1)[..., np.newaxis] - nps.matmult( R, np.mean(p1, axis=-1)[..., np.newaxis] )
+    t = pmean0 - nps.matmult( R, pmean1 )
 
     return nps.glue( R, t.ravel(), axis=-2)
 
diff --git a/poseutils.c b/poseutils.c
index 94bcb88..ff86c9c 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1480,7 +1480,9 @@ bool _align_procrustes_vectors_R01(// out
 
                                    // (N,) array; may be NULL to use an even
                                    // weighting
-                                   const double* weights)
+                                   const double* weights,
+                                   // if true, we apply each weight twice
+                                   const bool square_weights)
 {
     double M[9] = {};
 
@@ -1500,7 +1502,7 @@ bool _align_procrustes_vectors_R01(// out
             // I compute outer(v0,v1)
             for(int j=0; j<3; j++)
                 for(int k=0; k<3; k++)
-                    M[j*3 + k] += (p0[i*3+j]-pmean0[j])*(p1[i*3+k]-pmean1[k])*weights[i];
+                    M[j*3 + k] += (p0[i*3+j]-pmean0[j])*(p1[i*3+k]-pmean1[k])*weights[i]*(square_weights ? weights[i] : 1.0);
 
 
     for(int i=0; i<9; i++)
@@ -1618,7 +1620,7 @@ bool mrcal_align_procrustes_vectors_R01(// out
                                         // weighting
                                         const double* weights)
 {
-    return _align_procrustes_vectors_R01(R01,N,v0,v1,NULL,NULL,weights);
+    return _align_procrustes_vectors_R01(R01,N,v0,v1,NULL,NULL,weights,false);
 }
 
 bool mrcal_align_procrustes_points_Rt01(// out
@@ -1635,19 +1637,32 @@ bool mrcal_align_procrustes_points_Rt01(// out
 {
     double pmean0[3] = {};
     double pmean1[3] = {};
+    double sum_w2    = 0.0;
 
+    // The weights apply to the residuals. So the cost contains w^2, and the
+    // centroids are weighted by w^2
     for(int i=0; i<N; i++)
+    {
+        const double w2 = (weights == NULL) ? 1.0 : weights[i]*weights[i];
+        sum_w2 += w2;
         for(int j=0; j<3; j++)
         {
-            pmean0[j] += p0[i*3+j];
-            pmean1[j] += p1[i*3+j];
+            pmean0[j] += p0[i*3+j]*w2;
+            pmean1[j] += p1[i*3+j]*w2;
         }
+    }
+    if(sum_w2 == 0.0)
+    {
+        // Poorly-defined problem. As in _align_procrustes_vectors_R01()
+        Rt01[0] = 0.;
+        return false;
+    }
     for(int j=0; j<3; j++)
     {
-        pmean0[j] /= (double)N;
-        pmean1[j] /= (double)N;
+        pmean0[j] /= sum_w2;
+        pmean1[j] /= sum_w2;
     }
-    if(!_align_procrustes_vectors_R01(Rt01,N,p0,p1,pmean0,pmean1,weights))
+    if(!_align_procrustes_vectors_R01(Rt01,N,p0,p1,pmean0,pmean1,weights,true))
         return false;
 
     // t = pmean0 - R01 pmean1
-- 
2.43.0


From 794c27b08ec0db5762a83f81acf161a3ee57de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 097/120] fix: polygon_difference() can produce regions with
 holes

---
 mrcal/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index f75ae56..d5c8f83 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -735,14 +735,22 @@ element (difference consists of N separate polygons)
         # line between the centroid and some vertex. Which one doesn't matter; I
         # keep trying until some cut works
         hole = p.interiors[0]
+
+        # The cut must be long-enough to span the whole polygon
+        xmin,ymin,xmax,ymax = p.bounds
+        cut_length          = 2. * ((xmax-xmin) + (ymax-ymin))
+
         for i in range(0,len(hole.coords)):
 
-            l0 = np.array((hole.centroid))
-            l1 = np.array((hole.coords[i]))
-            l0,l1 = (l1 + 100*(l0-l1)),(l0 + 100*(l1-l0))
-            line = LineString( (l0,l1) )
+            l0 = np.array(hole.centroid.coords[0])
+            l1 = np.array(hole.coords[i])
+            d  = l1-l0
+            if nps.norm2(d) == 0:
+                continue
+            d *= cut_length / nps.mag(d)
+            line = LineString( (l0-d, l0+d) )
 
-            s = shapely.ops.split(p, line)
+            s = list(shapely.ops.split(p, line).geoms)
             if len(s) > 1:
                 # success. split into multiple pieces. I process each one
                 # recursively, and I'm done. I return a flattened list
-- 
2.43.0


From bb3871b848e0e4d72825d406d6dbc5bc9cef26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 098/120] fix: model_resolution__deg_pixel() supports a single
 pixel

---
 mrcal/model_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 92b9109..50208ad 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2283,7 +2283,7 @@ The scalar resolution in degrees/pixel
     lmax = (a+c)/2 + sqrt_discriminant
     lmin = (a+c)/2 - sqrt_discriminant
     # handle roundoff error
-    lmin[lmin < 1e-6] = 1e-6
+    lmin = np.maximum(lmin, 1e-6)
 
     # swap min/max since I took the reciprocal
     resolution_max_deg_pix = 1./np.sqrt(lmin) * 180./np.pi
-- 
2.43.0


From 8f7ced28070ca0303a4bdc25c8365ca00655ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 099/120] fix: hypothesis_board_corner_positions() does not
 modify the given idx_inliers

---
 mrcal/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index d5c8f83..8345b4d 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -570,6 +570,9 @@ RETURNED VALUE
     # shape (Nobservations,Nheight,Nwidth)
     if idx_inliers is None:
         idx_inliers = observations_board[...,2] > 0
+    else:
+        # I modify this array below. The caller's array should stay as it is
+        idx_inliers = np.array(idx_inliers, dtype=bool)
     idx_outliers = ~idx_inliers
 
     if icam_intrinsics is None:
-- 
2.43.0


From 0e3c99d959c60c353ad69cfa6d28af67bb0342e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 100/120] fix: write_point_cloud_as_ply() writes correct ascii
 files

---
 mrcal/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 8345b4d..37d4253 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1743,7 +1743,7 @@ property float z
                                 axis = -1)
                 np.savetxt(f,
                            pbgr,
-                           fmt      = ('%.1f','%.1f','%.1f','%d'),
+                           fmt      = ('%.9g','%.9g','%.9g','%d'),
                            comments = '',
                            header   = '')
             elif color is not None and color.ndim == 2:
@@ -1752,15 +1752,14 @@ property float z
                                 color[:,(2,)],
                                 color[:,(1,)],
                                 color[:,(0,)],
-                                255*np.ones((N,1)),
                                 axis = -1)
                 np.savetxt(f,
                            pbgr,
-                           fmt      = ('%.1f','%.1f','%.1f','%d','%d','%d','%d'),
+                           fmt      = ('%.9g','%.9g','%.9g','%d','%d','%d'),
                            comments = '',
                            header   = '')
             else:
                 np.savetxt(f, points,
-                           fmt      = ('%.1f','%.1f','%.1f',),
+                           fmt      = ('%.9g','%.9g','%.9g',),
                            comments = '',
                            header   = '')
-- 
2.43.0


From 33f4308e9043113a76f6d29419467a32048d36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 101/120] fix: plotoptions_measurement_boundaries() shows the
 triangulated points

---
 mrcal/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 37d4253..7d88d87 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1114,6 +1114,7 @@ A list of 'set' directives passable as plot options to gnuplotlib
     return \
         list(_plot_options_state_meas_boundary(mrcal.measurement_index_boards,         optimization_inputs, 0)) + \
         list(_plot_options_state_meas_boundary(mrcal.measurement_index_points,         optimization_inputs, 0)) + \
+        list(_plot_options_state_meas_boundary(mrcal.measurement_index_points_triangulated, optimization_inputs, 0)) + \
         list(_plot_options_state_meas_boundary(mrcal.measurement_index_regularization, optimization_inputs, None))
 
 
-- 
2.43.0


From 3f4435dccc05ccc5c440af1a72d691df69994564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 102/120] fix: hypothesis_board_corner_positions() works with
 rt_cam_ref = None

---
 mrcal/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7d88d87..9471158 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -555,9 +555,13 @@ RETURNED VALUE
     Rt_ref_frame = \
         mrcal.Rt_from_rt( optimization_inputs['rt_ref_frame'] )\
         [ indices_frame_camintrinsics_camextrinsics[:,0] ]
+    rt_cam_ref = optimization_inputs.get('rt_cam_ref')
+    if rt_cam_ref is None:
+        # a single camera, sitting at the reference
+        rt_cam_ref = np.zeros((0,6), dtype=float)
     Rt_cam_ref = \
         nps.glue( mrcal.identity_Rt(),
-                  mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref']),
+                  mrcal.Rt_from_rt(rt_cam_ref),
                   axis = -3 ) \
         [ indices_frame_camintrinsics_camextrinsics[:,2]+1 ]
 
-- 
2.43.0


From 4a01a5dda1603177e37128826824dde5aa60c4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 103/120] fix: procrustes alignment: the singularity test is
 independent of the scale of the data

---
 mrcal/utils.py | 4 ++--
 poseutils.c    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 9471158..caac6c3 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -64,7 +64,7 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
     # two isn't
-    if S[-2] < 1e-12:
+    if S[-2] <= 1e-12*S[0]:
         # Poorly-defined problem. Return error
         return np.zeros((4,3), dtype=float)
 
@@ -113,7 +113,7 @@ def _align_procrustes_vectors_R01(v0, v1, weights):
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
     # two isn't
-    if S[-2] < 1e-12:
+    if S[-2] <= 1e-12*S[0]:
         # Poorly-defined problem. Return error
         return np.zeros((3,3), dtype=float)
 
diff --git a/poseutils.c b/poseutils.c
index ff86c9c..683aa5b 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1567,7 +1567,7 @@ bool _align_procrustes_vectors_R01(// out
     // I look at the second-lowest singular value. One 0 singular value is OK
     // (the other two can uniquely define my 3D basis). But two isn't OK: the
     // basis is no longer unique
-    if(S[1] < 1e-12)
+    if(S[1] <= 1e-12*S[0])
     {
         // Poorly-defined problem
         //
-- 
2.43.0


From 393f7a8a74a0ace4537a93c6985638eff612e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 104/120] fix: _report_regional_statistics() reports the number
 of observations in each cell

---
 mrcal/calibration.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 330ae23..76c3457 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1834,14 +1834,16 @@ This function returns a tuple
         # within a cell
         idx = idx[:,0] * idx[:,1]
 
-        err = err[idx, ...].ravel()
-        if len(err) <= 5:
+        # shape (Nobservations_in_cell, 2)
+        err   = err[idx, ...]
+        count = len(err)
+        if count <= 2:
             # we have too little data in this cell
-            return np.array((0.,0.,len(err)))
+            return np.array((0.,0.,count))
 
         mean   = np.mean(err)
         stdev  = np.std(err)
-        return np.array((mean,stdev,len(err)))
+        return np.array((mean,stdev,count))
 
 
 
-- 
2.43.0


From 0bfeade741e9ef601d4fd8a8a2db289bbf503f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 105/120] fix: valid-intrinsics region: look at the magnitude
 of the mean residual, accept the documented minimum count

---
 mrcal/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 76c3457..a5ae66c 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1696,9 +1696,9 @@ uncertainty cannot be computed.
 
     if not re.match('LENSMODEL_SPLINED_', model.intrinsics()[0]):
         mask *= \
-            (mean        < threshold_mean) * \
+            (np.abs(mean) < threshold_mean) * \
             (stdev       < threshold_stdev) * \
-            (count       > threshold_count)
+            (count       >= threshold_count)
 
     # I compute the contour. OpenCV can't process binary images, so I need
     # to convert to a different image type first. AND findContours() reports
-- 
2.43.0


From 43a1e44a8fb4a8074af88c0622dcdae371ede878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 106/120] fix: mrcal-convert-lensmodel: existing output files
 are not overwritten without --force

---
 mrcal-convert-lensmodel | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mrcal-convert-lensmodel b/mrcal-convert-lensmodel
index 2b1c6d8..6a81e92 100755
--- a/mrcal-convert-lensmodel
+++ b/mrcal-convert-lensmodel
@@ -361,10 +361,22 @@ else:
         directory,filename_base = os.path.split(f)
         file_output = f"{args.outdir}/{filename_base}-{lensmodel_to}{{CAMID}}{extension}"
 
-    if os.path.exists(file_output) and not args.force:
-        print(f"ERROR: '{file_output}' already exists. Not overwriting this file. Pass -f to overwrite",
-              file=sys.stderr)
-        sys.exit(1)
+    if not args.force:
+        # These are the files we will write at the end
+        files_output_all = [ file_output.replace('{CAMID}','') ]
+        if args.all:
+            optimization_inputs = m.optimization_inputs()
+            if optimization_inputs is not None and \
+               len(optimization_inputs['intrinsics']) > 1:
+                files_output_all = \
+                    [ file_output.replace('{CAMID}','-{:02d}'.format(icam_intrinsics)) \
+                      for icam_intrinsics in range(len(optimization_inputs['intrinsics'])) ]
+
+        for f in files_output_all:
+            if os.path.exists(f):
+                print(f"ERROR: '{f}' already exists. Not overwriting this file. Pass -f to overwrite",
+                      file=sys.stderr)
+                sys.exit(1)
 
 
 lensmodel_from = m.intrinsics()[0]
-- 
2.43.0


From 8a24d71dbd668b508d7a3cb3aa9f6483707b0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 107/120] fix: mrcal-convert-lensmodel: refuse a negative
 --radius that excludes the whole imager

---
 mrcal-convert-lensmodel | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mrcal-convert-lensmodel b/mrcal-convert-lensmodel
index 6a81e92..123006e 100755
--- a/mrcal-convert-lensmodel
+++ b/mrcal-convert-lensmodel
@@ -539,6 +539,9 @@ if not args.sampled:
                     print("A radius <0 is only implemented if we're focusing on the imager center", file=sys.stderr)
                     sys.exit(1)
                 r = nps.mag(dims)/2. + args.radius
+                if r <= 0:
+                    print(f"--radius {args.radius} excludes the whole imager", file=sys.stderr)
+                    sys.exit(1)
 
 
             indices_cam  = optimization_inputs['indices_frame_camintrinsics_camextrinsics'][:,1]
@@ -687,6 +690,10 @@ else:
                       file=sys.stderr)
                 sys.exit(1)
             r = nps.mag(dims)/2. + args.radius
+            if r <= 0:
+                print(f"--radius {args.radius} excludes the whole imager",
+                      file=sys.stderr)
+                sys.exit(1)
 
         grid_off_center = q - focus_center
         i = nps.norm2(grid_off_center) < r*r
-- 
2.43.0


From fd478247f8f82e1adf6d5e5c480487e2ae075df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 108/120] fix: mrcal-cull-corners --cull-left-of: cull only the
 points with x < the given value

---
 mrcal-cull-corners | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 02c501b..0dc4399 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -231,7 +231,7 @@ if args.cull_left_of              is not None or \
             sys.stdout.write(l)
             continue
 
-        if args.cull_left_of        is not None and float(f[1]) > args.cull_left_of:
+        if args.cull_left_of        is not None and float(f[1]) >= args.cull_left_of:
             sys.stdout.write(l)
             continue
         if args.cull_rad_off_center is not None and \
-- 
2.43.0


From c400bd9a56ee8a38676f4a6c4283e36d3cfd7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 109/120] fix: mrcal-cull-corners --cull-rad-off-center: a
 margin larger than the imager culls everything

---
 mrcal-cull-corners | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 0dc4399..21fbc56 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -195,7 +195,8 @@ if args.cull_left_of              is not None or \
         else:
             dims = np.array(args.imagersize, dtype=float)
             c  = (dims - 1.) / 2.
-            r = nps.mag(dims)/2. + args.cull_rad_off_center
+            # If the margin covers the whole imager, we cull everything
+            r = max(nps.mag(dims)/2. + args.cull_rad_off_center, 0)
 
     if args.cull_rad_off_center_board is not None:
         cboard = (np.array((args.object_width_n, args.object_height_n), dtype=float) - 1.) / 2.
-- 
2.43.0


From bb8fdd6f8fb8bd44aaa5dde5dfa696c4ecb2bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 110/120] fix: mrcal-cull-corners: culling options given as 0
 are validated like any others

---
 mrcal-cull-corners | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 21fbc56..fe2354b 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -143,12 +143,13 @@ if Nculloptions != 1:
 
 if args.object_width_n is not None and args.object_height_n is None:
     args.object_height_n = args.object_width_n
-if args.cull_random_observations_ratio or args.cull_rad_off_center_board:
+if args.cull_random_observations_ratio is not None or \
+   args.cull_rad_off_center_board      is not None:
     if (args.object_width_n is None or args.object_height_n is None):
         print("--cull-random-observation-ratio and --cull-rad-off-center-board requires --object-width-n",
               file=sys.stderr)
         sys.exit(1)
-if args.cull_random_observations_ratio:
+if args.cull_random_observations_ratio is not None:
     if args.filename is not None:
         print("--cull-random-observation-ratio is exclusive with --filename",
               file=sys.stderr)
-- 
2.43.0


From 34232bb020d6282be4c1004541eda5f1e23d512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 111/120] fix: mrcal-cull-corners --cull-rad-off-center-board:
 keep track of the board position at every point

---
 mrcal-cull-corners | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index fe2354b..fd445b8 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -215,8 +215,8 @@ if args.cull_left_of              is not None or \
         print("This tool REQUIRES a .vnl file with legend matching EXACTLY '# filename x y level'. Giving up", file=sys.stderr)
         sys.exit(1)
 
-    xy_pt            = np.array((0,0), dtype=int)
-    filename_current = ''
+    i_pt             = 0
+    filename_current = None
 
     for l in sys.stdin:
         if re.match(r'\s*(?:#|$)',l):
@@ -224,6 +224,17 @@ if args.cull_left_of              is not None or \
             continue
 
         f = l.split()
+
+        if args.cull_rad_off_center_board is not None:
+            # Every point in the file advances the position in the board, even
+            # if this point is missing or if it's not being filtered
+            if filename_current != f[0]:
+                filename_current = f[0]
+                i_pt             = 0
+            xy_pt = np.array((i_pt %  args.object_width_n,
+                              i_pt // args.object_width_n))
+            i_pt += 1
+
         if f[1] == '-':
             sys.stdout.write(l)
             continue
@@ -241,17 +252,7 @@ if args.cull_left_of              is not None or \
             sys.stdout.write(l)
             continue
         if args.cull_rad_off_center_board is not None:
-            if filename_current != f[0]:
-                filename_current = f[0]
-                xy_pt *= 0
-
-            accept_pt = nps.norm2(xy_pt - cboard) < args.cull_rad_off_center_board*args.cull_rad_off_center_board
-
-            xy_pt[0] += 1
-            if xy_pt[0] == args.object_width_n:
-                xy_pt[0] = 0
-                xy_pt[1] += 1
-            if accept_pt:
+            if nps.norm2(xy_pt - cboard) < args.cull_rad_off_center_board*args.cull_rad_off_center_board:
                 sys.stdout.write(l)
                 continue
 
-- 
2.43.0


From 6bb2b3c2e739525152fe9c8b0188d83eb67cb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 112/120] fix: mrcal-cull-corners
 --cull-random-observations-ratio: preserve the decimation levels

---
 mrcal-cull-corners | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index fd445b8..b35750d 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -270,7 +270,7 @@ observations, _, paths = \
     mrcal.compute_chessboard_corners(W                  = args.object_width_n,
                                      H                  = args.object_height_n,
                                      corners_cache_vnl  = sys.stdin,
-                                     weight_column_kind = 'weight')
+                                     weight_column_kind = 'level')
 
 N_keep       = int(round((1.0 - args.cull_random_observations_ratio) * len(observations)))
 indices_keep = np.sort(np.random.choice(len(observations), N_keep, replace=False))
@@ -290,6 +290,8 @@ for i in range(len(paths)):
     path   = paths[i]
     for j in range(observations.shape[-2]):
         l = observations[i][j][2]
-        if l < 0: l = '-'
-        else:     l = int(l)
+        # compute_chessboard_corners() converted the level to a weight =
+        # 1/2^level
+        if l <= 0: l = '-'
+        else:      l = int(np.round(-np.log2(l)))
         print(f"{path} {observations[i][j][0]} {observations[i][j][1]} {l}")
-- 
2.43.0


From 54a4ba92d917aeab599c4523cfa555a6cf7f9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 113/120] fix: mrcal-report-fov: report each field of view as
 undefined independently

---
 mrcal-report-fov | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-report-fov b/mrcal-report-fov
index f3c4a8a..785285c 100755
--- a/mrcal-report-fov
+++ b/mrcal-report-fov
@@ -112,10 +112,10 @@ for i,model in enumerate(args.models):
     if th_centersx.size: print(f"{header}Mean FOV vertically:    {2.*np.mean(th_centersx):.2f}degrees")
     else:                print(f"{header}Mean FOV vertically:    undefined")
 
-    if th_centersx.size: print(f"{header}Mean FOV horizontally:  {2.*np.mean(th_centersy):.2f}degrees")
+    if th_centersy.size: print(f"{header}Mean FOV horizontally:  {2.*np.mean(th_centersy):.2f}degrees")
     else:                print(f"{header}Mean FOV horizontally:  undefined")
 
-    if th_centersx.size: print(f"{header}Mean FOV corner-corner: {2.*np.mean(th_corners):.2f}degrees")
+    if th_corners.size:  print(f"{header}Mean FOV corner-corner: {2.*np.mean(th_corners):.2f}degrees")
     else:                print(f"{header}Mean FOV corner-corner: undefined")
 
     if len(args.models) > 1 and i+1 != len(args.models):
-- 
2.43.0


From 568a3d0eb7902a27568db1a7c5b62dab56b1eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 114/120] fix: mrcal-rotate-corners: do not split or
 glob-expand the given regular expressions

---
 mrcal-rotate-corners | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrcal-rotate-corners b/mrcal-rotate-corners
index 8078692..6e1b8da 100755
--- a/mrcal-rotate-corners
+++ b/mrcal-rotate-corners
@@ -80,15 +80,15 @@ while true; do
                 continue
                 ;;
             '--90')
-                cam_rotate90+=($2)
+                cam_rotate90+=("$2")
                 shift 2
                 ;;
             '--180')
-                cam_rotate180+=($2)
+                cam_rotate180+=("$2")
                 shift 2
                 ;;
             '--270')
-                cam_rotate270+=($2)
+                cam_rotate270+=("$2")
                 shift 2
                 ;;
             '--')
@@ -109,15 +109,15 @@ if (( $# )); then
 fi
 
 cam_rotate90_select_expression="0"
-for f in ${cam_rotate90[@]}; do
+for f in "${cam_rotate90[@]}"; do
     cam_rotate90_select_expression+=" || filename ~ \"$f\""
 done
 cam_rotate180_select_expression="0"
-for f in ${cam_rotate180[@]}; do
+for f in "${cam_rotate180[@]}"; do
     cam_rotate180_select_expression+=" || filename ~ \"$f\""
 done
 cam_rotate270_select_expression="0"
-for f in ${cam_rotate270[@]}; do
+for f in "${cam_rotate270[@]}"; do
     cam_rotate270_select_expression+=" || filename ~ \"$f\""
 done
 
-- 
2.43.0


From b7ed425e98ffbf39812f7ff720ad5800042cea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 115/120] fix: mrcal-reproject-image: --fit accepts non-integer
 pixel coordinates

---
 mrcal-reproject-image | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-reproject-image b/mrcal-reproject-image
index 8daf251..6ba1a0c 100755
--- a/mrcal-reproject-image
+++ b/mrcal-reproject-image
@@ -425,7 +425,7 @@ import numpysane as nps
 
 if args.fit is not None:
     if re.match(r"^[0-9\.e-]+(,[0-9\.e-]+)*$", args.fit):
-        xy = np.array([int(x) for x in args.fit.split(',')], dtype=float)
+        xy = np.array([float(x) for x in args.fit.split(',')], dtype=float)
         Nxy = len(xy)
         if Nxy % 2 or Nxy < 4:
             print(f"If passing pixel coordinates to --fit, I need at least 2 x,y pairs. Instead got {Nxy} values",
-- 
2.43.0


From ab0b85ce70f5b201159d015c9c6748e5a0cbba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 116/120] fix: mrcal-reproject-image: report a failure if any
 of the images could not be processed

---
 mrcal-reproject-image | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mrcal-reproject-image b/mrcal-reproject-image
index 6ba1a0c..0950d29 100755
--- a/mrcal-reproject-image
+++ b/mrcal-reproject-image
@@ -523,19 +523,20 @@ def _transform_this(inout):
     except:
         print(f"Couldn't load '{inout[0]}'",
               file=sys.stderr)
-        return
+        return False
 
     if image.shape[0] != model_imagersize[1] or \
        image.shape[1] != model_imagersize[0]:
         print(f"Couldn't process {inout[0]}: image dimensions don't match the input model dimensions. Image size: [{image.shape[1]} {image.shape[0]}]. model.imagersize(): {model_imagersize}",
               file=sys.stderr)
-        return
+        return False
 
     if model_valid_intrinsics_region is not None:
         mrcal.annotate_image__valid_intrinsics_region(image, model_valid_intrinsics_region)
     image_transformed = mrcal.transform_image(image, mapxy)
     mrcal.save_image(inout[1], image_transformed)
     print(f"Wrote {inout[1]}", file=sys.stderr)
+    return True
 
 def process(model_from, model_to, image_globs, suffix,
             intrinsics_only, distance, plane_n, plane_d):
@@ -586,19 +587,23 @@ def process(model_from, model_to, image_globs, suffix,
         try:
             mapresult = pool.map_async(_transform_this, filenames_inout)
 
-            # like wait(), but will barf if something goes wrong. I don't actually care
-            # about the results
-            mapresult.get(1000000)
+            # like wait(), but will barf if something goes wrong
+            results = mapresult.get(1000000)
         except:
             pool.terminate()
+            pool.join()
+            raise
 
         pool.close()
         pool.join()
 
     else:
         # Serial path. Useful for debugging
-        for f in filenames_inout:
-            _transform_this(f)
+        results = [ _transform_this(f) for f in filenames_inout ]
+
+    if not all(results):
+        # Some images could not be processed. I already complained
+        sys.exit(1)
 
 
 
-- 
2.43.0


From b3c67fbd1a2285d30161da21693d202c95ab52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 117/120] fix: mrcal-stereo --force-grayscale: the average of
 the channels does not overflow

---
 mrcal-stereo | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-stereo b/mrcal-stereo
index 69ac457..487f0f7 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -959,7 +959,7 @@ def process(i_image):
     if args.force_grayscale:
         for i in range(2):
             if images[i].ndim == 3:
-                images[i] = np.mean(images[i], axis=-1, dtype=images[i].dtype)
+                images[i] = np.mean(images[i], axis=-1).astype(images[i].dtype)
 
     if args.equalization == 'clahe':
         images = [ clahe.apply(image) for image in images ]
-- 
2.43.0


From f265b6f9c4ab2ac4fd3bc144c2beb1fe289037ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 118/120] fix: mrcal-stereo: report a failure if any of the
 image pairs could not be processed

---
 mrcal-stereo | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mrcal-stereo b/mrcal-stereo
index 487f0f7..e9e655a 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -1425,9 +1425,8 @@ def gui_stereo(images,
 if Nimages == 1 or args.jobs <= 1:
 
     # Serial path. Useful for debugging or if I only have one set of images
-    for i in range(Nimages):
-        process(i)
-    sys.exit(0)
+    results = [ process(i) for i in range(Nimages) ]
+    sys.exit(0 if all(results) else 1)
 
 ####### Parallel path
 
@@ -1448,11 +1447,13 @@ pool = multiprocessing.Pool(args.jobs)
 try:
     mapresult = pool.map_async(process, np.arange(Nimages))
 
-    # like wait(), but will barf if something goes wrong. I don't actually care
-    # about the results
-    mapresult.get(1000000)
+    # like wait(), but will barf if something goes wrong
+    results = mapresult.get(1000000)
 except:
     pool.terminate()
+    pool.join()
+    raise
 
 pool.close()
 pool.join()
+sys.exit(0 if all(results) else 1)
-- 
2.43.0


From a2ebc9adfa5d338a1fd7b3aa70c2bac5154643bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 119/120] fix: mrcal-stereo: the point cloud contains only the
 points that have a valid range

---
 mrcal-stereo | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrcal-stereo b/mrcal-stereo
index e9e655a..614efe5 100755
--- a/mrcal-stereo
+++ b/mrcal-stereo
@@ -764,8 +764,9 @@ def write_output_all(args,
     # shape (H,W,3)
     p_ref = mrcal.transform_point_Rt(Rt_ref_rect0, p_rect0)
 
-    # shape (N,3)
-    p_ref = nps.clump(p_ref, n=2)
+    # shape (N,3). I only want the points that have a valid range. The others are
+    # reported with range=0
+    p_ref = p_ref[ranges > 0]
 
     # I set each point color to the nearest-pixel color in the original
     # image. I only report those points that are in-bounds (they SHOULD
-- 
2.43.0


From ec1f63ecf06d8cb33bd759accb746f2338648393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 120/120] fix: mrcal-convert-lensmodel --monocular: works with
 a camera that already sits at the reference

---
 mrcal-convert-lensmodel | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrcal-convert-lensmodel b/mrcal-convert-lensmodel
index 123006e..e772217 100755
--- a/mrcal-convert-lensmodel
+++ b/mrcal-convert-lensmodel
@@ -486,7 +486,9 @@ if not args.sampled:
             rt_refnew_reforig = rt_cam_reforig
 
             rt_ref_frame = mrcal.compose_rt( rt_refnew_reforig, rt_ref_frame )
-            rt_cam_ref = np.empty((0,6), dtype=float)
+
+        # My one camera is at the reference
+        rt_cam_ref = np.empty((0,6), dtype=float)
 
         # frames
         rt_ref_frame = rt_ref_frame[indices_frame_camintrinsics_camextrinsics[:,0], :]
-- 
2.43.0

