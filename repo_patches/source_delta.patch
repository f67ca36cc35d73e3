From d38442c0bbd5e5c96def1ab8708c3a1e817045da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 01/39] fix: light at azimuth exactly 0 is binned in its own
 polar bin

np.digitize(..., right=True) - 1 is -1 for an angle of exactly 0, which moved the
light to the previous polar bin (or, for the first bin of a perfect mirror, turned
reflection into transmission).
---
 rayflare/angles.py                       | 1 +
 rayflare/matrix_formalism/ideal_cases.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/rayflare/angles.py b/rayflare/angles.py
index b69d35d..2a1ff0d 100644
--- a/rayflare/angles.py
+++ b/rayflare/angles.py
@@ -196,5 +196,6 @@ def theta_summary_A(A_mat, angle_vector):
 
 def overall_bin(x, phi_intv, angle_vector_0):
     phi_ind = np.digitize(x, phi_intv[x.coords["theta_bin"].data[0]], right=True) - 1
+    phi_ind[phi_ind < 0] = 0  # phi = 0 exactly is the lower edge of the first phi bin
     ov_bin = np.argmin(abs(angle_vector_0 - x.coords["theta_bin"].data[0])) + phi_ind
     return ov_bin
diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index ae9f963..53a8d46 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -131,6 +131,8 @@ def mirror_matrix(
 
             phis_out = fold_phi(angle_vector_phi + np.pi, options["phi_symmetry"])
 
+        phis_out[phis_out == 0] = 1e-10
+
         # matrix will be all zeros with just one '1' in each column/row. Just need to determine where it goes
 
         binned_theta = np.digitize(angle_vector_th, theta_intv, right=True) - 1
-- 
2.43.0


From 1ee5a9c258bdf205b98e7e1b7f92ea8f7c88a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:12 +0000
Subject: [PATCH 02/39] fix: matrix method launches light into the bin
 containing the incidence direction

An azimuth equal to the symmetry period or negative was not folded and ended up in
another polar bin; directions on a bin edge were launched into a different bin than
the one populated when only the incidence angle is simulated, losing all the light.
---
 rayflare/matrix_formalism/multiply_matrices.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 8390f2b..5e52a1c 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -99,14 +99,15 @@ def make_v0(
     )
     n_a_in = int(len(angle_vector) / 2)
     v0 = np.zeros((num_wl, n_a_in))
-    th_bin = np.digitize(th_in, theta_intv) - 1
+    # same convention for bin edges as used to populate the redistribution matrices
+    th_bin = max(np.digitize(th_in, theta_intv, right=True) - 1, 0)
     phi_intv = phi_intv[th_bin]
     ov_bin = np.argmin(abs(angle_vector[:, 0] - th_bin))
     if phi_in == "all":
         n_phis = len(phi_intv) - 1
         v0[:, ov_bin : (ov_bin + n_phis)] = 1 / n_phis
     else:
-        phi_ind = np.digitize(phi_in, phi_intv) - 1
+        phi_ind = max(np.digitize(phi_in, phi_intv, right=True) - 1, 0)
         ov_bin = ov_bin + phi_ind
         v0[:, ov_bin] = 1
     return v0
@@ -332,7 +333,7 @@ def matrix_multiplication(
 
     thetas = angle_vector[:n_a_in, 1]
 
-    if options.phi_in != "all" and options.phi_in > options.phi_symmetry:
+    if options.phi_in != "all":
         # fold phi_in back into phi_symmetry
         phi_in = fold_phi(options["phi_in"], options["phi_symmetry"])
 
-- 
2.43.0


From e071ff3ec19e8e596ec33944069a27ed11efca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:43 +0000
Subject: [PATCH 03/39] fix: ray-traced matrix for only the incidence angle
 with phi_in = 'all'

The string was passed on as an azimuth and the calculation crashed.
---
 rayflare/ray_tracing/rt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index b78cbd1..666100b 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -133,8 +133,12 @@ def RT(
             n_angles = n_reps
 
             if options["phi_in"] == "all":
-                # get relevant phis
-                phis_in = np.tile(options["phi_in"], n_reps)
+                # get relevant phis: those of the azimuthal bins for the incidence theta
+                th_bin = max(np.digitize(th_in, theta_intv, right=True) - 1, 0)
+                bin_phis = angles_in[angles_in[:, 0] == th_bin, 2]
+                n_angles = max(n_reps, len(bin_phis))
+                phis_in = np.resize(bin_phis, n_angles)
+                thetas_in = np.tile(th_in, n_angles)
             else:
                 if options["phi_in"] == 0:
                     phis_in = np.tile(0.0001, n_reps)
-- 
2.43.0


From 729f7c4acf272edb4376e2c63911343a8a2b431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 04/39] fix: uninitialised memory in results where there is
 nothing to normalise

np.divide with 'where' but without 'out' leaves arbitrary values for unpopulated
incidence bins of ray-traced matrices, non-absorbing bulk profiles and transparent
incoherent stacks.
---
 rayflare/matrix_formalism/multiply_matrices.py |  4 ++--
 rayflare/ray_tracing/rt.py                     | 17 ++++++++++++++---
 rayflare/transfer_matrix_method/tmm.py         |  1 +
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 5e52a1c..f11e7ff 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -186,7 +186,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     per_bin = v_1 - v_2  # total absorption per bin
     abscos = np.abs(np.cos(thetas))
     denom = 1 - np.exp(-alphas[:, None] * d / abscos[None, :])
-    norm = np.divide(per_bin, denom, where=denom != 0)
+    norm = np.divide(per_bin, denom, where=denom != 0, out=np.zeros_like(per_bin))
 
     result = np.empty((v_1.shape[0], len(depths)))
 
@@ -201,7 +201,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     # but at short wavelengths this causes an issue where the integrated depth profile
     # is not equal to the total absorption. Scale the profile to fix this and make things
     # consistent.
-    scale = np.divide(A, check, where=check != 0)
+    scale = np.divide(A, check, where=check != 0, out=np.zeros_like(check))
 
     corrected = scale[:, None] * result
 
diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 666100b..6093381 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -417,12 +417,23 @@ def RT_wl(
                 local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += 1
 
     # normalize
-    out_mat = np.divide(out_mat, n_rays_in_bin, where=n_rays_in_bin != 0)
+    out_mat = np.divide(
+        out_mat,
+        n_rays_in_bin,
+        where=n_rays_in_bin != 0,
+        out=np.zeros_like(out_mat),
+    )
     overall_abs_frac = np.divide(
-        n_rays_in_bin_abs, n_rays_in_bin, where=n_rays_in_bin != 0
+        n_rays_in_bin_abs,
+        n_rays_in_bin,
+        where=n_rays_in_bin != 0,
+        out=np.zeros_like(n_rays_in_bin_abs),
     )
     abs_scale = np.divide(
-        overall_abs_frac, np.sum(A_mat, 0), where=np.sum(A_mat, 0) != 0
+        overall_abs_frac,
+        np.sum(A_mat, 0),
+        where=np.sum(A_mat, 0) != 0,
+        out=np.zeros_like(overall_abs_frac),
     )
 
     intgr = np.divide(
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index c0e8e23..05a2780 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -711,6 +711,7 @@ class tmm_structure:
                     A_per_layer * output["A"],
                     np.sum(A_per_layer, axis=0),
                     where=np.sum(A_per_layer, axis=0) != 0,
+                    out=np.zeros_like(A_per_layer),
                 )
 
         output["A_per_layer"] = output["A_per_layer"].T
-- 
2.43.0


From dbd08d32f217fb85d3e3d63629858219ae9b62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 05/39] fix: coherency list for rear incidence in planar (TMM)
 redistribution matrices

The layers were reversed but not the list of which of them are coherent.
---
 rayflare/transfer_matrix_method/tmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 05a2780..690f90a 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -198,6 +198,8 @@ def TMM(
             )
             trns = incidence
             inc = transmission
+            if coherency_list is not None:
+                coherency_list = coherency_list[::-1]
 
         if options["pol"] == "u":
             pols = ["s", "p"]
-- 
2.43.0


From 5c038fb191a02139fe621a762a1f45d3a37fbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:33 +0000
Subject: [PATCH 06/39] fix: RCWA redistribution matrices for rear incidence

The layer geometries were not reversed with the layers, and the power of several
orders in one outgoing channel was added to the value of another incidence channel.
---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 1e6b101..e8aa83a 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -138,7 +138,7 @@ def RCWA(
                 prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         # write a separate function that makes the OptiStack structure into an S4 object, defined materials etc.
-        geom_list = [layer.geometry for layer in structure]
+        geom_list = [layer.geometry for layer in layers]
         geom_list.insert(0, {})  # incidence medium
         geom_list.append({})  # transmission medium
 
@@ -445,12 +445,12 @@ def RCWA_wl_inkstone(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += T_pfbo[i2]
 
         # if layer_details: # not implemented yet for Inkstone
         #
@@ -632,12 +632,12 @@ def RCWA_wl(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += T_pfbo[i2]
 
         if layer_details:
             f_z = np.sqrt((l_oc[layer_details] / (wl**2)) - fr_x**2 - fr_y**2)
-- 
2.43.0


From 5a69dce02bc0dac3161684966ee6fc5e169ecbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:54 +0000
Subject: [PATCH 07/39] fix: direction of diffraction orders in Inkstone
 redistribution matrices

Inkstone measures the azimuth from the x axis; x and y were swapped for the incident
wave only, so orders were placed in wrong channels or dropped as evanescent. The
azimuth of an order is that of its propagation direction, as in the other methods.
---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index e8aa83a..507940f 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -400,11 +400,12 @@ def RCWA_wl_inkstone(
         R_pfbo = np.real(R_pfbo)
         T_pfbo = np.real(T_pfbo)
 
+        # Inkstone measures phi from the x axis
         fi_x = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
         )
         fi_y = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
         )
 
         fr_x = fi_x + G_basis[:, 0] * fg_1x + G_basis[:, 1] * fg_2x
@@ -413,8 +414,8 @@ def RCWA_wl_inkstone(
         fr_z = np.sqrt((l_oc[0] / (wl**2)) - fr_x**2 - fr_y**2)
         ft_z = np.sqrt((l_oc[-1] / (wl**2)) - fr_x**2 - fr_y**2)
 
-        phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
-        phi_rt = fold_phi(phi_rt, phi_sym)
+        # light coming from phi travels towards phi + pi
+        phi_rt = fold_phi(np.arctan2(fr_y, fr_x) + np.pi, phi_sym)
 
         theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
         theta_t = np.pi - np.real(np.arccos(ft_z / np.sqrt(fr_x**2 + fr_y**2 + ft_z**2)))
-- 
2.43.0


From b7f20edaa2c4e37413352dcdd6ae87c807c9afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 08/39] fix: heights_texture for arrays which are not square

---
 rayflare/textures/define_textures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rayflare/textures/define_textures.py b/rayflare/textures/define_textures.py
index 210473a..076244c 100644
--- a/rayflare/textures/define_textures.py
+++ b/rayflare/textures/define_textures.py
@@ -37,8 +37,9 @@ def heights_texture(z_points, x_width, y_width, **kwargs):
     :return: a list of two RTSurface objects: [front_incidence, rear_incidence]
     """
 
-    x = np.linspace(0, x_width, z_points.shape[0])
-    y = np.linspace(0, y_width, z_points.shape[1])
+    # rows of z_points lie along y, columns along x (as for np.meshgrid)
+    x = np.linspace(0, x_width, z_points.shape[1])
+    y = np.linspace(0, y_width, z_points.shape[0])
 
     xy = np.meshgrid(x, y)
 
-- 
2.43.0


From bd672d40632e87339f1e5ec1dde7b957f03d2d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 09/39] fix: hyperhemisphere facets near the rim oriented the
 wrong way round

---
 rayflare/textures/standard_rt_textures.py | 89 ++++-------------------
 1 file changed, 14 insertions(+), 75 deletions(-)

diff --git a/rayflare/textures/standard_rt_textures.py b/rayflare/textures/standard_rt_textures.py
index 0dddb11..77e1a52 100644
--- a/rayflare/textures/standard_rt_textures.py
+++ b/rayflare/textures/standard_rt_textures.py
@@ -128,15 +128,18 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
         surface.simplices[index, 1] = s2_current
         surface.simplices[index, 2] = s1_current
 
-    def switch_xy(surface, X_or_Y, x_y_ind, direction):
+    def orient_normals(surface, z_centre, direction):
         # direction = 1, point OUT of sphere
         # direction = -1, point IN to sphere
-        for index in np.arange(len(X_norm_back)):
-            current_N = surface.crossP[index, :]
-            sign = direction * np.sign(X_or_Y[index])
-            # N[2] should be < 0
-            if np.sign(current_N[x_y_ind]) != sign:
-                switch_points(surface, index)
+        middle = (surface.P_0s + surface.P_1s + surface.P_2s) / 3
+        outward = np.sum((middle - np.array([0, 0, z_centre])) * surface.crossP, axis=1)
+
+        for index in np.where(direction * outward < 0)[0]:
+            switch_points(surface, index)
+
+        surface.crossP = np.cross(
+            surface.P_1s - surface.P_0s, surface.P_2s - surface.P_0s
+        )
 
     phi = (1 + np.sqrt(5)) / 2  # the golden ratio
     long_incr = 2 * np.pi / phi  # how much to increment the longitude
@@ -254,80 +257,16 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
     front.crossP = front.crossP[~bottom_planar]
     front.size = front.P_0s.shape[0]
 
-    # find the middle of each triangle (X, Y and Z points):
-
-    X_norm = np.mean([front.P_0s[:, 0], front.P_1s[:, 0], front.P_2s[:, 0]], 0)
-    Y_norm = np.mean([front.P_0s[:, 1], front.P_1s[:, 1], front.P_2s[:, 1]], 0)
-    Z_norm = np.mean([front.P_0s[:, 2], front.P_1s[:, 2], front.P_2s[:, 2]], 0)
-
-    X_norm_back = np.mean([back.P_0s[:, 0], back.P_1s[:, 0], back.P_2s[:, 0]], 0)
-    Y_norm_back = np.mean([back.P_0s[:, 1], back.P_1s[:, 1], back.P_2s[:, 1]], 0)
-    Z_norm_back = np.mean([back.P_0s[:, 2], back.P_1s[:, 2], back.P_2s[:, 2]], 0)
-
-    # make all the normals points outwards (for some reason this doesn't happen automatically
-    # with ConvexHull!) Four things to check:
-
-    # 1. In each quadrant, if x of the middle of the triangle is +ve, sign of normal should be +ve and vice versa
-    # 2. In each quadrant, if y of the middle of the triangle is +ve, sign of normal should be +ve and vice versa
-    # 3. Above the centre of the sphere, the normal should be pointing up (N[2] > 0)
-    # 4. Below the centre of the sphere, the normal should be pointing down (N[2] < 0)
+    # make all the normals of the front surface point outwards, and those of the back surface (which is upside-down,
+    # so the sphere has its centre at -h) inwards (for some reason this doesn't happen automatically with ConvexHull!)
 
     # If this isn't the case, simply need to switch two of the points of the triangle to flip the direction of the normal.
     # In this case, we flip P_1 and P_2.
-    # Note that in principle it should be sufficient to just do the first two steps, but for triangles which lie
-    # almost exactly on the x or y axis it won't work.
 
     # To keep things consistent, also need to switch the indices for the simplices if you are switching points around
 
-    switch_xy(back, X_norm_back, 0, -1)
-    switch_xy(front, X_norm, 0, 1)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    switch_xy(back, Y_norm_back, 1, -1)
-    switch_xy(front, Y_norm, 1, 1)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    above_middle = np.where(Z_norm > 1.03 * h)[0]
-    below_middle = np.where(Z_norm < 0.97 * h)[0]
-
-    for index in above_middle:
-        current_N = front.crossP[index, :]
-
-        # N[2] should be > 0
-        if current_N[2] < 0:
-            switch_points(front, index)
-
-    for index in below_middle:
-        current_N = front.crossP[index, :]
-
-        # N[2] should be < 0
-        if current_N[2] > 0:
-            switch_points(front, index)
-
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    above_middle_back = np.where(Z_norm_back > -0.97 * h)[0]
-    below_middle_back = np.where(Z_norm_back < -1.03 * h)[0]
-
-    for index in above_middle_back:
-        current_N = back.crossP[index, :]
-
-        # N[2] should be < 0
-        if current_N[2] > 0:
-            switch_points(back, index)
-
-    for index in below_middle_back:
-        current_N = back.crossP[index, :]
-
-        # N[2] should be > 0
-        if current_N[2] < 0:
-            switch_points(back, index)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
+    orient_normals(front, h, 1)
+    orient_normals(back, -h, -1)
 
     front.N = front.crossP / np.linalg.norm(front.crossP, axis=1)[:, None]
     back.N = back.crossP / np.linalg.norm(back.crossP, axis=1)[:, None]
-- 
2.43.0


From 408c37953cac27163ebeeeb2d369cce4f0ed73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 10/39] fix: hyperhemisphere rim points independent of the
 length unit

---
 rayflare/textures/standard_rt_textures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/textures/standard_rt_textures.py b/rayflare/textures/standard_rt_textures.py
index 77e1a52..8fdbe57 100644
--- a/rayflare/textures/standard_rt_textures.py
+++ b/rayflare/textures/standard_rt_textures.py
@@ -168,8 +168,8 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
         np.sum(
             np.all(
                 [
-                    np.sqrt(X**2 + Y**2) < r_cross + 0.01,
-                    np.sqrt(X**2 + Y**2) > r_cross - 0.01,
+                    np.sqrt(X**2 + Y**2) < r_cross + 0.01 * radius,
+                    np.sqrt(X**2 + Y**2) > r_cross - 0.01 * radius,
                 ],
                 axis=0,
             )
-- 
2.43.0


From 4d0402e57980810100c57c79c079aa4ccf13cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 11/39] fix: refreshing a surface with a height distribution
 after shifting it

---
 rayflare/ray_tracing/rt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 6093381..e949caf 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1478,6 +1478,8 @@ class RTSurface:
 
     def shift(self, z_shift):
         self.Points[:, 2] = self.Points[:, 2] - z_shift
+        # refresh() scales these points relative to zcov, so they must move too
+        self.original_Points[:, 2] = self.original_Points[:, 2] - z_shift
         self.P_0s = self.Points[self.simplices[:, 0]]
         self.P_1s = self.Points[self.simplices[:, 1]]
         self.P_2s = self.Points[self.simplices[:, 2]]
-- 
2.43.0


From 5dd04c3fa6f12d11e14d61936e93f257b0a6653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:57 +0000
Subject: [PATCH 12/39] fix: surface area of an RTSurface

---
 rayflare/ray_tracing/rt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index e949caf..227739d 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1464,7 +1464,10 @@ class RTSurface:
 
     def find_area(self):
         xyz = np.stack((self.P_0s, self.P_1s, self.P_2s))
-        cos_theta = np.sum((xyz[0] - xyz[1]) * (xyz[2] - xyz[1]), 1)
+        cos_theta = np.sum((xyz[0] - xyz[1]) * (xyz[2] - xyz[1]), 1) / (
+            np.linalg.norm(xyz[0] - xyz[1], axis=1)
+            * np.linalg.norm(xyz[2] - xyz[1], axis=1)
+        )
 
         theta = np.arccos(cos_theta)
         self.area = np.sum(
-- 
2.43.0


From 4d0a3d022dbaab57477851b69bdc6296d78ff849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 13/39] fix: profile coefficients of layers in (partly)
 incoherent stacks

---
 rayflare/transfer_matrix_method/tmm.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 690f90a..6a16e7d 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -452,6 +452,18 @@ class tmm_structure:
                         )
                     )
 
+            def beer_lambert_coeff(l, alpha):
+                # prefactor of exp(-alpha*z) in an incoherent layer, such that it integrates to the total
+                # absorption in that layer (consistent with tmm.inc_position_resolved)
+                A_layer = np.real(output["A_per_layer"][:, l - 1])
+                A_fraction = 1 - np.exp(-alpha * layer_stack.widths[l - 1])
+                return np.divide(
+                    alpha * A_layer,
+                    A_fraction,
+                    where=A_fraction != 0,
+                    out=np.zeros_like(alpha),
+                )
+
             if pol in "sp":
 
                 if coherent:
@@ -463,7 +475,6 @@ class tmm_structure:
                     output["profile"] = data["absor"]
 
                 else:
-                    fraction_reaching = 1 - np.cumsum(A_per_layer, axis=0)
                     fn = tmm.absorp_analytic_fn()
                     fn.a1, fn.a3, fn.A1, fn.A2, fn.A3 = (
                         np.empty((0, num_wl)),
@@ -506,7 +517,7 @@ class tmm_structure:
                                 / wavelength
                             )
                             fn.a1 = np.vstack((fn.a1, alpha))
-                            fn.A2 = np.vstack((fn.A2, alpha * fraction_reaching[l - 1]))
+                            fn.A2 = np.vstack((fn.A2, beer_lambert_coeff(l, alpha)))
                             fn.a3 = np.vstack((fn.a3, np.zeros((1, num_wl))))
                             fn.A1 = np.vstack((fn.A1, np.zeros((1, num_wl))))
                             fn.A3 = np.vstack((fn.A3, np.zeros((1, num_wl))))
@@ -526,11 +537,6 @@ class tmm_structure:
                     output["profile"] = 0.5 * (data_s["absor"] + data_p["absor"])
 
                 else:
-                    fraction_reaching_s = 1 - np.cumsum(A_per_layer_s, axis=0)
-                    fraction_reaching_p = 1 - np.cumsum(A_per_layer_s, axis=0)
-                    fraction_reaching = 0.5 * (
-                        fraction_reaching_s + fraction_reaching_p
-                    )
                     fn = tmm.absorp_analytic_fn()
                     fn.a1, fn.a3, fn.A1, fn.A2, fn.A3 = (
                         np.empty((0, num_wl)),
@@ -569,7 +575,7 @@ class tmm_structure:
                     for l in layers:
                         if coherency_list[l] == "c":
                             fn_s = tmm.inc_find_absorp_analytic_fn(l, out_s)
-                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_s)
+                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_p)
                             fn_l = fn_s.add(fn_p).scale(0.5)
                             fn.a1 = np.vstack((fn.a1, fn_l.a1))
                             fn.a3 = np.vstack((fn.a3, fn_l.a3))
@@ -585,7 +591,7 @@ class tmm_structure:
                                 / wavelength
                             )
                             fn.a1 = np.vstack((fn.a1, alpha))
-                            fn.A2 = np.vstack((fn.A2, alpha * fraction_reaching[l - 1]))
+                            fn.A2 = np.vstack((fn.A2, beer_lambert_coeff(l, alpha)))
                             fn.a3 = np.vstack((fn.a3, np.zeros((1, num_wl))))
                             fn.A1 = np.vstack((fn.A1, np.zeros((1, num_wl))))
                             fn.A3 = np.vstack((fn.A3, np.zeros((1, num_wl))))
-- 
2.43.0


From 5e2159a5aac7a7354876a87d4ed8a7ae7e1beb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 14/39] fix: matrix method results are complete when no light
 enters the bulk

---
 rayflare/matrix_formalism/multiply_matrices.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index f11e7ff..6861768 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -427,7 +427,8 @@ def matrix_multiplication(
             # rep
             i2 = 1
 
-            while np.any(power > options["I_thresh"]):
+            # always do at least one pass, so all results are defined even if no light enters the bulk
+            while i2 == 1 or np.any(power > options["I_thresh"]):
                 vf_1[i1] = dot_wl_u2d(down2up, vf_1[i1])  # outgoing to incoming
                 # print("Travelling down int, before", np.sum(vf_1[i1], axis=1))
                 # vb_1: incoming (just absorption through bulk)
@@ -541,7 +542,8 @@ def matrix_multiplication(
             # rep
             i2 = 1
 
-            while np.any(power > options["I_thresh"]):
+            # always do at least one pass, so all results are defined even if no light enters the bulk
+            while i2 == 1 or np.any(power > options["I_thresh"]):
                 vf_1[i1] = dot_wl_u2d(down2up, vf_1[i1])  # outgoing to incoming
                 vb_1[i1] = dot_wl(D[i1], vf_1[i1])  # pass through bulk, downwards
                 A[i1].append(np.sum(vf_1[i1], 1) - np.sum(vb_1[i1], 1))
-- 
2.43.0


From 3e1735ba6abec46223ea9a7698b0c18d9da8a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 15/39] fix: make_absorption_function when profiles are only
 available for part of the structure

---
 rayflare/utilities.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index c7c2733..7d9dcf7 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -68,9 +68,16 @@ def make_absorption_function(result, structure, options):
 
     if matrix_method:
 
-        profile_front = result[2][0]
+        # result[2] has one entry for each interface for which a profile was calculated
+        profiles = list(result[2])
+
+        if structure[0].prof_layers is not None:
+            profile_front = profiles.pop(0)
+
+        if structure[2].prof_layers is not None:
+            profile_back = profiles.pop(0)
+
         profile_bulk = result[3][0]
-        profile_back = result[2][1]
 
         widths_front = np.array(structure[0].widths) * 1e9  # in nm
         width_bulk = np.array(structure[1].width) * 1e6  # in um
@@ -132,7 +139,7 @@ def make_absorption_function(result, structure, options):
             prof_bulk = profile_bulk[:, : len(bulk_positions)]  # already in m-1
 
         else:
-            prof_bulk = np.zeros_like(bulk_positions)
+            prof_bulk = np.zeros((len(options.wavelength), len(bulk_positions)))
 
         all_positions = np.hstack(
             (
-- 
2.43.0


From b1eb811a6c613c54b6d3131ec2c9e945801ce627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 16/39] fix: number of points used by make_absorption_function
 consistent with the calculated profiles

---
 rayflare/utilities.py | 95 ++++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 46 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 7d9dcf7..7531b02 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -166,15 +166,14 @@ def make_absorption_function(result, structure, options):
             cumulative_width = 0  # cumulative width in nm
             index_offset_bulk = 0
 
-            layer_start_bulk = np.insert(np.cumsum(structure.widths, 0), 0, 0)
-            layer_end_bulk = np.cumsum(structure.widths, 0)
+            # same points and layer limits (in um) as used in rt_structure.calculate
+            widths_bulk = 1e6 * np.array([0] + list(structure.widths) + [0])
+            layer_start_bulk = np.cumsum(widths_bulk)[:-1]
+            layer_end_bulk = np.cumsum(widths_bulk)[1:]
 
-            bulk_positions = (
-                np.arange(
-                    0, np.sum(structure.widths) * 1e6, options.depth_spacing_bulk * 1e6
-                )
-                / 1e6
-            )  # widths and spacing are in m
+            bulk_positions = np.arange(
+                0, sum(widths_bulk), options.depth_spacing_bulk * 1e6
+            )
 
             for i1, surf in enumerate(structure.surfaces):
 
@@ -182,46 +181,43 @@ def make_absorption_function(result, structure, options):
 
                 if structure.tmm_or_fresnel[i1] == 1:  # tmm interface
 
-                    surf_positions = np.arange(
-                        0,
-                        np.sum(structure.interface_layer_widths[i1]),
-                        options.depth_spacing * 1e9,
+                    # the interface profiles are calculated at points spaced by depth_spacing in each layer
+                    # separately, starting from the top of each layer
+                    layer_start = np.cumsum(
+                        np.insert(structure.interface_layer_widths[i1], 0, 0)
                     )
-                    surf_prof = np.zeros(
-                        (len(options.wavelength), len(surf_positions))
-                    )
-
-                    if hasattr(surf, "prof_layers"):
-
-                        data = result["interface_profiles"][i1]
-
-                        layer_start = np.insert(
-                            np.cumsum(
-                                np.insert(structure.interface_layer_widths[i1], 0, 0)
-                            ),
-                            0,
-                            0,
+                    surf_positions = []
+                    surf_prof = []
+
+                    for j1, layer_width in enumerate(
+                        structure.interface_layer_widths[i1]
+                    ):
+                        layer_positions = np.arange(
+                            0, layer_width, options.depth_spacing * 1e9
                         )
-                        # insert 0 because prof_layers in 1-indexed
-                        layer_end = np.cumsum(
-                            np.insert(structure.interface_layer_widths[i1], 0, 0)
-                        )
-
-                        for j1 in surf.prof_layers:
-                            indices = np.logical_and(
-                                surf_positions >= layer_start[j1],
-                                surf_positions < layer_end[j1],
-                            )
-                            ind_diff = np.sum(indices)
-
-                            surf_prof[:, indices] = (
+                        n_points = len(layer_positions)
+                        surf_positions.append(layer_start[j1] + layer_positions)
+
+                        if (
+                            structure.prof_layers[i1] is not None
+                            and j1 + 1 in structure.prof_layers[i1]
+                        ):  # prof_layers is 1-indexed
+                            surf_prof.append(
                                 1e9
-                                * data[
+                                * result["interface_profiles"][i1][
                                     :,
-                                    index_offset_surf : (index_offset_surf + ind_diff),
+                                    index_offset_surf : (index_offset_surf + n_points),
                                 ]  # convert from nm-1 to m-1
                             )
-                            index_offset_surf += ind_diff
+                            index_offset_surf += n_points
+
+                        else:
+                            surf_prof.append(
+                                np.zeros((len(options.wavelength), n_points))
+                            )
+
+                    surf_positions = np.hstack(surf_positions)
+                    surf_prof = np.hstack(surf_prof)
 
                     all_data.append(surf_prof)
                     all_positions.append(
@@ -250,9 +246,9 @@ def make_absorption_function(result, structure, options):
                         1e9
                         * data[:, index_offset_bulk : (index_offset_bulk + ind_diff)]
                     )  # convert from nm-1 to m-1
-                    pos_from_zero = bulk_positions[indices] - np.min(
-                        bulk_positions[indices]
-                    )
+                    pos_from_zero = (
+                        bulk_positions[indices] - np.min(bulk_positions[indices])
+                    ) / 1e6  # convert to m
                     # print(bulk_prof)
                     index_offset_bulk += ind_diff
 
@@ -266,7 +262,14 @@ def make_absorption_function(result, structure, options):
 
         else:
 
-            positions = np.arange(0, structure.width*1e6, depth_spacing*1e6)/1e6
+            # one position for each point in the profile (recalculating the number of points can give a
+            # different result due to rounding)
+            n_points = result["profile"].shape[1]
+
+            if abs(n_points - structure.width / depth_spacing) > 1.001:
+                raise ValueError("The profile must have been calculated for the whole structure.")
+
+            positions = depth_spacing * np.arange(n_points)
             diff_absorb_fn = interp1d(positions, 1e9 * result["profile"])
 
         return positions, diff_absorb_fn
-- 
2.43.0


From 1a97875096ec10687436c991f4e457e8fea98ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 17/39] fix: RCWA profile always belongs to the options and
 structure it was requested for

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 507940f..60c8748 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1177,14 +1177,9 @@ class rcwa_structure:
 
         pol = process_pol(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
-            self.update_oc(options["wavelength"])
-            # if total R, A, T have already been calculated, it was for the wrong wavelengths
-            self.calculate(options)
-
-        if not hasattr(self, "rat_output_A"):
-            # Need to calculate R, A, T first
-            self.calculate(options)
+        # Need to calculate R, A, T first. If these have already been calculated, it may have been for different
+        # options (wavelength, angle, polarization...) or before the structure was changed.
+        self.calculate(options)
 
         dist = options["z_points"] if "z_points" in options.keys() else None
         z_limit = options["z_limit"] if "z_limit" in options.keys() else None
-- 
2.43.0


From 245e02389d257412c57cb68c443dcacc50a8fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 18/39] fix: RCWA structure keeps new widths when the
 wavelengths change

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 60c8748..b57e3ab 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1046,10 +1046,12 @@ class rcwa_structure:
         )
 
         layers_oc = (np.array(stack_OS.get_indices(wavelengths * 1e9)) ** 2).T
-        widths = stack_OS.get_widths()
 
-        self.widths = widths
-        self.width = np.sum(self.widths[1:-1]) / 1e9
+        if not hasattr(self, "widths"):
+            # do not reset the widths if only the wavelengths change
+            self.widths = stack_OS.get_widths()
+            self.width = np.sum(self.widths[1:-1]) / 1e9
+
         self.shapes_oc = shapes_oc
         self.layers_oc = layers_oc
         self.current_wavelengths = wavelengths
@@ -1103,7 +1105,7 @@ class rcwa_structure:
 
         pol = process_pol(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
             # need to update list of optical constants for correct wavelengths
             self.update_oc(options["wavelength"])
 
@@ -1542,6 +1544,7 @@ class rcwa_structure:
             np.insert(np.array(new_widths, dtype="f"), 0, np.inf), np.inf
         ).tolist()
         self.widths = new_widths
+        self.width = np.sum(self.widths[1:-1]) / 1e9
 
     def set_size(self, new_size):
         """Allows the user to set new basis vectors for the structure.
-- 
2.43.0


From 37442621b905a38e4dfcc3c9c4c73872fd96ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 19/39] fix: off-centre polygons no longer move every time an
 RCWA calculation is done

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index b57e3ab..dbbbe51 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -779,9 +779,8 @@ def initialise_S_inkstone(size, orders, geom_list, mats_oc, shapes_oc, shape_mat
                     )
                 # ? argument are different than S4
                 elif shape["type"] == "polygon":
-                    vertices = shape["vertices"]
-                    if isinstance(vertices, tuple):
-                        vertices = list(vertices)
+                    # copy, so the geometry description is not changed below
+                    vertices = list(shape["vertices"])
 
                     if "center" in shape:
                         center = shape["center"]
-- 
2.43.0


From 204330e07d7a697d79574d3a954286166d219d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 20/39] fix: total width of tmm_structure after set_widths

---
 rayflare/transfer_matrix_method/tmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 6a16e7d..3f67972 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -737,6 +737,7 @@ class tmm_structure:
     def set_widths(self, new_widths):
 
         self.layer_stack.set_widths(new_widths)
+        self.width = np.sum(self.layer_stack.widths) / 1e9
 
     def build_coh_list(self, options):
 
-- 
2.43.0


From 18bd0e8a6b38071d7d8d5f70499f06a55bb235fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 21/39] fix: absorption profile of incoherent layers in
 ray-traced TMM interfaces

---
 rayflare/ray_tracing/rt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 227739d..ea69b06 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1351,8 +1351,8 @@ def make_profiles_wl(
 
     offsets = np.cumsum([0] + widths)[:-1]
 
-    xloc = params.loc[dict(coeff="A1")].reduce(np.sum, "layer")
-    nz = xloc != 0
+    # local angles at which light was absorbed (for each incidence channel)
+    nz = pr != 0
 
     ans = (
         params.loc[dict(layer=prof_layers)]
-- 
2.43.0


From 6cd9ea45f413dd18889e76bb926d6cea0567a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 22/39] fix: make_absorption_function with options supplied as
 a dictionary

---
 rayflare/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 7531b02..a65e23b 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -7,6 +7,7 @@
 
 import numpy as np
 from solcore.interpolate import interp1d
+from solcore.state import State
 import os
 from sparse import load_npz
 import xarray as xr
@@ -35,6 +36,9 @@ def make_absorption_function(result, structure, options):
     from rayflare.ray_tracing import rt_structure
     from rayflare.structure import Structure
 
+    if isinstance(options, dict):
+        options = State(options)
+
     get_wavelength(options)
     # determine the type of structure to figure out how to process the result:
 
-- 
2.43.0


From 3f26f085087e1dbe1664b7d5440dd3848df5c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 23/39] fix: shifting a surface defined by integer coordinates

---
 rayflare/ray_tracing/rt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index ea69b06..e810186 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1394,6 +1394,9 @@ class RTSurface:
         else:
             self.distribution = None
 
+        # heights must not be rounded when shifting, even if the coordinates passed are integers
+        Points = np.array(Points, dtype=float)
+
         tri = Delaunay(Points[:, [0, 1]])
         self.simplices = tri.simplices
         self.Points = Points
-- 
2.43.0


From d89eddd37499304edb8c34084718cb48f70543ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:30 +0000
Subject: [PATCH 24/39] fix: rays starting in the transmission medium start
 below the final surface

---
 rayflare/ray_tracing/rt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index e810186..51a184b 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1636,7 +1636,13 @@ def single_ray_stack(
 
     else:
         surf_index = mat_i - 1
-        z_offset = -cum_width[surf_below] + 1e-8
+
+        if mat_i < len(surfaces):
+            z_offset = -cum_width[surf_below] + 1e-8
+
+        else:
+            # transmission medium: there is no surface below, start below the final surface
+            z_offset = surfaces[surf_index].z_min - 1e-8
 
     stop = False
     I = 1
-- 
2.43.0


From 0685fee557f319053c505eeb37c5feb490df557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 25/39] fix: folding of azimuthal angles independent of
 rounding errors

---
 rayflare/angles.py                              | 4 +++-
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 6 +-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/rayflare/angles.py b/rayflare/angles.py
index 2a1ff0d..d340c85 100644
--- a/rayflare/angles.py
+++ b/rayflare/angles.py
@@ -72,7 +72,9 @@ def make_angle_vector(n_angle_bins, phi_sym, c_azimuth, theta_spacing="sin"):
 
 def fold_phi(phis, phi_sym):
     """'Folds' phi angles back into symmetry element from 0 -> phi_sym radians"""
-    return (abs(phis // np.pi) * 2 * np.pi + phis) % phi_sym
+    folded = np.round((abs(phis // np.pi) * 2 * np.pi + phis) % phi_sym, 10)
+    # equivalent angles give the same result, independent of rounding errors (and phi_sym is equivalent to 0)
+    return folded * (folded < np.round(phi_sym, 10))
 
 
 def theta_summary(out_mat, angle_vector, n_theta_bins, front_or_rear="front"):
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index dbbbe51..0dcd1d1 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -14,7 +14,7 @@ from solcore.state import State
 
 from solcore.absorption_calculator import OptiStack
 
-from rayflare.angles import make_angle_vector, overall_bin
+from rayflare.angles import make_angle_vector, fold_phi, overall_bin
 from rayflare.utilities import get_matrices_or_paths, get_wavelength
 
 from inkstone import Inkstone
@@ -679,10 +679,6 @@ def RCWA_wl(
         return R, T, A_layer.T, mat_RT, mat_int  # , mat_T
 
 
-def fold_phi(phis, phi_sym):
-    return (abs(phis // np.pi) * 2 * np.pi + phis) % phi_sym
-
-
 def rcwa_rt(S, n_layers):
     below = "layer_" + str(n_layers)  # identify which layer is the transmission medium
 
-- 
2.43.0


From 521ad833f431b124f5d4d574ff38a78946d2bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 26/39] fix: absorption per layer from matrices without a
 wavelength dimension

---
 rayflare/matrix_formalism/multiply_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 6861768..c9ffdbd 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -161,7 +161,7 @@ def make_D(alphas, thick, thetas):
 
 def dot_wl(mat, vec):
 
-    result = np.empty((vec.shape[0], mat.shape[1]))
+    result = np.empty((vec.shape[0], mat.shape[-2]))
 
     if len(mat.shape) == 3:
         for i1 in range(vec.shape[0]):  # loop over wavelengths
-- 
2.43.0


From 719190f050020be2830c7e7a7bc55c2f7fe6f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 27/39] fix: height of a texture is measured from its base

---
 rayflare/ray_tracing/rt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 51a184b..43aadba 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1401,7 +1401,6 @@ class RTSurface:
         self.simplices = tri.simplices
         self.Points = Points
         self.original_Points = deepcopy(Points)
-        self.height_ind = np.argmax(np.abs(self.Points[:,2]))
         self.P_0s = Points[tri.simplices[:, 0]]
         self.P_1s = Points[tri.simplices[:, 1]]
         self.P_2s = Points[tri.simplices[:, 2]]
@@ -1438,6 +1437,9 @@ class RTSurface:
                 )
             ][0]
 
+        # the point whose height above (or below) the base of the texture is the height of the texture
+        self.height_ind = np.argmax(np.abs(self.Points[:, 2] - self.zcov))
+
         if "name" in kwargs:
             self.name = kwargs["name"]
 
-- 
2.43.0


From 6a9690fafb8f5bfdff5b15d5a64c483f8752371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:14 +0000
Subject: [PATCH 28/39] fix: lookup table without the requested profile
 parameters is recalculated

---
 .../transfer_matrix_method/lookup_table.py    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index bd629b0..4e2bdec 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -15,6 +15,20 @@ from solcore.absorption_calculator import OptiStack
 import logging
 logging.basicConfig(format='%(levelname)s: %(message)s',level=logging.INFO)
 
+def has_profile_data(savepath, prof_layers):
+    """Whether a stored lookup table has the absorption profile parameters for all the requested layers."""
+    if prof_layers is None:
+        return True
+
+    with xr.open_dataset(savepath) as table:
+        if "Aprof" not in table:
+            return False
+
+        # layers for which no parameters were calculated are filled with NaNs
+        missing = table["Aprof"].isnull().all([d for d in table["Aprof"].dims if d != "layer"])
+        return not bool(missing.sel(layer=prof_layers).any())
+
+
 def make_TMM_lookuptable(
     layers,
     incidence,
@@ -55,7 +69,11 @@ def make_TMM_lookuptable(
         sides = [1, -1]
 
     savepath = os.path.join(structpath, surf_name + ".nc")
-    if os.path.isfile(savepath) and not overwrite:
+    if (
+        os.path.isfile(savepath)
+        and not overwrite
+        and has_profile_data(savepath, prof_layers)
+    ):
         logging.info("Existing lookup table found")
         allres = xr.open_dataset(savepath)
     else:
-- 
2.43.0


From e443bfded0d6b852afd840938cd6594580eb3a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:48 +0000
Subject: [PATCH 29/39] fix: stored files of different calculations are never
 combined

---
 rayflare/matrix_formalism/ideal_cases.py        | 4 +++-
 rayflare/ray_tracing/rt.py                      | 3 ++-
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 3 ++-
 rayflare/transfer_matrix_method/tmm.py          | 3 ++-
 rayflare/utilities.py                           | 9 +++++++++
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index 53a8d46..eb83ea9 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -8,7 +8,7 @@
 import numpy as np
 from sparse import COO, save_npz
 from rayflare.angles import fold_phi
-from rayflare.utilities import get_matrices_or_paths
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices
 
 
 def lambertian_matrix(
@@ -77,6 +77,7 @@ def lambertian_matrix(
         absArray = COO.from_numpy(A_matrix)
 
         if save:
+            remove_stored_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], allArray)
             save_npz(path_or_mats[1], absArray)
 
@@ -158,6 +159,7 @@ def mirror_matrix(
         absArray = COO.from_numpy(A_matrix)
 
         if save:
+            remove_stored_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], allArray)
             save_npz(path_or_mats[1], absArray)
 
diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 43aadba..877deab 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -20,7 +20,7 @@ from warnings import warn
 from solcore.state import State
 
 from rayflare.angles import fold_phi, make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, get_savepath, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, get_savepath, get_wavelength
 from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
 
 from rayflare import logger
@@ -246,6 +246,7 @@ def RT(
         absArrays = stack([item[1] for item in allres])
 
         if save:
+            remove_stored_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], allArrays)
             save_npz(path_or_mats[1], absArrays)
 
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 0dcd1d1..99243bc 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -15,7 +15,7 @@ from solcore.state import State
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi, overall_bin
-from rayflare.utilities import get_matrices_or_paths, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, get_wavelength
 
 from inkstone import Inkstone
 
@@ -273,6 +273,7 @@ def RCWA(
         A_mat = COO.from_numpy(A_mat)
 
         if save:
+            remove_stored_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], full_mat)
             save_npz(path_or_mats[1], A_mat)
 
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 3f67972..4c0f066 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -13,7 +13,7 @@ from solcore.absorption_calculator import tmm_core_vec as tmm
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi
-from rayflare.utilities import get_matrices_or_paths, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, get_wavelength
 
 
 def TMM(
@@ -344,6 +344,7 @@ def TMM(
         A_mat = stack([item[1] for item in mats])
 
         if save:
+            remove_stored_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], fullmat)
             save_npz(path_or_mats[1], A_mat)
 
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index a65e23b..179473b 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -317,6 +317,15 @@ def get_matrices_or_paths(
             return [False, [savepath_RT, savepath_A]]
 
 
+def remove_stored_matrices(structpath, surf_name, front_or_rear):
+    # to be called before saving newly calculated matrices, so that files which belong to different calculations
+    # (e.g. a profile which is not part of the new results) are never combined
+    for part in ["profmat.nc", "A.npz", "RT.npz"]:
+        path = os.path.join(structpath, surf_name + front_or_rear + part)
+        if os.path.isfile(path):
+            os.remove(path)
+
+
 def get_savepath(save_location, project_name):
     """
     Returns the full path where matrices will be stored.
-- 
2.43.0


From 221983bc4dcec6b93e5c6f3be4e045b1978e9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 30/39] fix: netCDF files are complete or absent after an
 interruption

---
 rayflare/ray_tracing/rt.py                      | 4 ++--
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 4 ++--
 rayflare/transfer_matrix_method/lookup_table.py | 4 ++--
 rayflare/transfer_matrix_method/tmm.py          | 4 ++--
 rayflare/utilities.py                           | 7 +++++++
 5 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 877deab..b12fd38 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -20,7 +20,7 @@ from warnings import warn
 from solcore.state import State
 
 from rayflare.angles import fold_phi, make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, get_savepath, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, save_netcdf, get_savepath, get_wavelength
 from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
 
 from rayflare import logger
@@ -262,7 +262,7 @@ def RT(
             allres = xr.merge([intgr, profile])
 
             if save:
-                allres.to_netcdf(path_or_mats[2])
+                save_netcdf(allres, path_or_mats[2])
 
             return allArrays, absArrays, allres
 
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 99243bc..53ed3f8 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -15,7 +15,7 @@ from solcore.state import State
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi, overall_bin
-from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, save_netcdf, get_wavelength
 
 from inkstone import Inkstone
 
@@ -306,7 +306,7 @@ def RCWA(
             prof_dataset = xr.merge([intgr, profile])
 
             if save:
-                prof_dataset.to_netcdf(path_or_mats[2])
+                save_netcdf(prof_dataset, path_or_mats[2])
 
         if prof_layers is not None:
             return full_mat, A_mat, prof_dataset
diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index 4e2bdec..1691d9d 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -8,7 +8,7 @@
 import xarray as xr
 import numpy as np
 from rayflare.transfer_matrix_method.tmm import tmm_structure
-from rayflare.utilities import get_wavelength
+from rayflare.utilities import get_wavelength, save_netcdf
 import os
 from solcore.absorption_calculator import OptiStack
 
@@ -221,6 +221,6 @@ def make_TMM_lookuptable(
         unpol = allres.reduce(np.mean, "pol").assign_coords(pol="u").expand_dims("pol")
         allres = allres.merge(unpol)
 
-        allres.to_netcdf(savepath)
+        save_netcdf(allres, savepath)
 
     return allres
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 4c0f066..124ef1b 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -13,7 +13,7 @@ from solcore.absorption_calculator import tmm_core_vec as tmm
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi
-from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, save_netcdf, get_wavelength
 
 
 def TMM(
@@ -365,7 +365,7 @@ def TMM(
             allres = xr.merge([intgr, profile])
 
             if save:
-                allres.to_netcdf(path_or_mats[2])
+                save_netcdf(allres, path_or_mats[2])
 
             return fullmat, A_mat, allres
 
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 179473b..4df45aa 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -326,6 +326,13 @@ def remove_stored_matrices(structpath, surf_name, front_or_rear):
             os.remove(path)
 
 
+def save_netcdf(dataset, path):
+    # the dataset is written to a temporary file first: an incomplete netCDF file (because writing was interrupted) can be
+    # read without an error, giving wrong numbers, so it should never have the name of a complete one
+    dataset.to_netcdf(path + ".tmp")
+    os.replace(path + ".tmp", path)
+
+
 def get_savepath(save_location, project_name):
     """
     Returns the full path where matrices will be stored.
-- 
2.43.0


From 130fd6efe220872610ced2c1368d45e54e2da3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:44 +0000
Subject: [PATCH 31/39] fix: lookup tables for wavelengths which are not in
 ascending order

---
 rayflare/ray_tracing/rt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index b12fd38..ea0a828 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -107,7 +107,7 @@ def RT(
             side = -1
 
         if Fr_or_TMM == 1:
-            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc"))
+            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc")).sortby("wl")
             if front_or_rear == "rear":
                 # side gets flipped here
                 lookuptable = lookuptable.assign_coords(side=np.flip(lookuptable.side))
@@ -1065,7 +1065,7 @@ def make_tmm_args(arg_list):
 
             structpath = arg_list[2]
             surf_name = arg_list[3][i1] + "int_{}".format(i1)
-            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc"))
+            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc")).sortby("wl")
             additional_tmm_args.append(
                 {"wl": arg_list[-1], "Fr_or_TMM": 1, "lookuptable": lookuptable}
             )
-- 
2.43.0


From 7fc20f3b87c61921823ffe8458fa28ccaafa63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 32/39] fix: generation function of matrix results uses the
 depths of the stored profiles

---
 rayflare/utilities.py | 49 ++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 4df45aa..0e1692e 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -6,6 +6,7 @@
 # Contact: p.pearce@unsw.edu.au
 
 import numpy as np
+from solcore import asUnit
 from solcore.interpolate import interp1d
 from solcore.state import State
 import os
@@ -90,12 +91,9 @@ def make_absorption_function(result, structure, options):
         d_ints = options.depth_spacing * 1e9  # m to nm
         d_bulk = options.depth_spacing_bulk * 1e6  # m to um
 
-        front_positions = np.arange(0, np.sum(widths_front) - 1e-12, d_ints)  # in nm
+        front_positions, front_layers = profile_positions(structure[0], d_ints)  # in nm
         bulk_positions = np.arange(0, width_bulk - 1e-12, d_bulk)  # in um
-        back_positions = np.arange(0, np.sum(widths_back) - 1e-12, d_ints)  # in nm
-
-        layer_start = np.insert(np.cumsum(np.insert(widths_front, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_front, 0, 0))
+        back_positions, back_layers = profile_positions(structure[2], d_ints)  # in nm
 
         prof_front = np.zeros((len(options.wavelength), len(front_positions)))
 
@@ -104,9 +102,7 @@ def make_absorption_function(result, structure, options):
             index_offset = 0
 
             for i1 in structure[0].prof_layers:
-                indices = np.logical_and(
-                    front_positions >= layer_start[i1], front_positions < layer_end[i1]
-                )
+                indices = front_layers == i1
                 ind_diff = np.sum(indices)
                 prof_front[:, indices] = (
                     1e9
@@ -116,9 +112,6 @@ def make_absorption_function(result, structure, options):
                 )
                 index_offset += ind_diff
 
-        layer_start = np.insert(np.cumsum(np.insert(widths_back, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_back, 0, 0))
-
         prof_back = np.zeros((len(options.wavelength), len(back_positions)))
 
         if structure[2].prof_layers is not None:
@@ -126,9 +119,7 @@ def make_absorption_function(result, structure, options):
             index_offset = 0
 
             for i1 in structure[2].prof_layers:
-                indices = np.logical_and(
-                    back_positions >= layer_start[i1], back_positions < layer_end[i1]
-                )
+                indices = back_layers == i1
                 ind_diff = np.sum(indices)
                 prof_back[:, indices] = (
                     1e9
@@ -279,6 +270,36 @@ def make_absorption_function(result, structure, options):
         return positions, diff_absorb_fn
 
 
+def profile_positions(interface, depth_spacing):
+    """
+    Points at which the absorption profile of an interface is calculated in the angular redistribution matrix method.
+    These should be exactly the same (including rounding) as those used to calculate the matrices: for ray-tracing
+    with multilayers, the points in each layer start from the top of that layer; for the other methods, there is a
+    single set of points for the whole layer stack.
+
+    :param interface: an Interface object
+    :param depth_spacing: spacing of the points in nm
+
+    :return: positions relative to the top of the interface (in nm), index (1 is the first layer) of the layer which
+            contains each position
+    """
+
+    if interface.method == "RT_TMM":
+        widths = (np.array(interface.widths) * 1e9).tolist()
+        offsets = np.cumsum([0] + widths)
+        points = [np.arange(0, width, depth_spacing) for width in widths]
+        positions = [x + offset for x, offset in zip(points, offsets)]
+        layers = [np.full(len(x), i1 + 1) for i1, x in enumerate(points)]
+
+        return np.concatenate([[]] + positions), np.concatenate([[]] + layers)
+
+    widths = np.array([asUnit(width, "nm") for width in interface.widths])
+    positions = np.arange(0, np.sum(widths), depth_spacing)
+    layers = np.searchsorted(np.cumsum(widths), positions, side="right") + 1
+
+    return positions, layers
+
+
 def get_matrices_or_paths(
     structpath, surf_name, front_or_rear, prof_layers=None, overwrite=False
 ):
-- 
2.43.0


From e39dacf026f49588deae1962b9611091c98ad00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 33/39] fix: interface profiles of ray tracing for a single
 wavelength

---
 rayflare/ray_tracing/rt.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index ea0a828..fdc7aaf 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -629,7 +629,7 @@ def calculate_interface_profiles(
 
         A_lookup_front = lookuptable.Alayer.loc[
             dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[front_incidence])
         data_front = data_prof_layers[front_incidence]
 
         ## CHECK! ##
@@ -650,7 +650,7 @@ def calculate_interface_profiles(
 
         params_front = lookuptable.Aprof.loc[
             dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[front_incidence])
 
         s_params = params_front.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -678,7 +678,7 @@ def calculate_interface_profiles(
 
         A_lookup_back = lookuptable.Alayer.loc[
             dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[rear_incidence])
 
         data_back = data_prof_layers[rear_incidence]
 
@@ -690,7 +690,7 @@ def calculate_interface_profiles(
 
         params_back = lookuptable.Aprof.loc[
             dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[rear_incidence])
 
         s_params = params_back.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -1322,8 +1322,10 @@ def make_profiles_wl(
 
     # lookuptable layers are 1-indexed
 
-    data = lookuptable.loc[dict(side=1, pol=pol)].interp(
-        angle=pr.coords["local_theta"], wl=wl * 1e9
+    data = (
+        lookuptable.loc[dict(side=1, pol=pol)]
+        .sel(wl=wl * 1e9, method="nearest")
+        .interp(angle=pr.coords["local_theta"])
     )
 
     params = (
-- 
2.43.0


From da9e7e8c2532550a5b7c6abd78327a417ab8034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 34/39] fix: Lambertian scattering distributes power over solid
 angle

---
 rayflare/matrix_formalism/ideal_cases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index eb83ea9..69be5ea 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -43,9 +43,9 @@ def lambertian_matrix(
 
     else:
         theta_values = np.unique(angle_vector[angle_vector[:, 1] < np.pi / 2, 1])
-        dtheta = np.diff(theta_intv[theta_intv <= np.pi / 2])
 
-        dP = np.cos(theta_values) * dtheta
+        # power into each polar bin: cos(theta) integrated over the bin's solid angle
+        dP = np.diff(np.sin(theta_intv[theta_intv <= np.pi / 2]) ** 2)
 
         # matrix has indexing (out, in): row picks out 'out' entry, column picks out which v0 element
 
-- 
2.43.0


From b9b51f9601e038d25c13db27abfe901532720b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:08 +0000
Subject: [PATCH 35/39] fix: fields and permittivity use the optical constants
 of the requested wavelengths

---
 .../rigorous_coupled_wave_analysis/rcwa.py     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 53ed3f8..081ab8b 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1052,6 +1052,16 @@ class rcwa_structure:
         self.layers_oc = layers_oc
         self.current_wavelengths = wavelengths
 
+    def wavelength_index(self, wavelength, options):
+        # index of the wavelength in the options closest to some wavelength (in nm). The current optical constants
+        # can be those of an earlier calculation for other wavelengths.
+        get_wavelength(options)
+
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
+            self.update_oc(options["wavelength"])
+
+        return np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+
     def make_S(self, options, wl_ind):
         args = [
             self.size,
@@ -1252,7 +1262,7 @@ class rcwa_structure:
         :return: xs, ys, a_r, a_i. The x points, y points, and the real and imaginary parts of the dielectric function.
         """
 
-        wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+        wl_ind = self.wavelength_index(wavelength, options)
 
         S = self.make_S(options, wl_ind)
 
@@ -1336,7 +1346,7 @@ class rcwa_structure:
                     the magnitude of the E-field, the magnitude of the H-field. The magnitude is given by sqrt(abs(Ex^2 + Ey^2 + Ez^2))
         """
 
-        wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+        wl_ind = self.wavelength_index(wavelength, options)
 
         S = self.make_S(options, wl_ind)
 
@@ -1426,7 +1436,7 @@ class rcwa_structure:
         """
 
         if options["RCWA_method"].lower() == "s4":
-            wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+            wl_ind = self.wavelength_index(wavelength, options)
 
             S = self.make_S(options, wl_ind)
 
@@ -1466,7 +1476,7 @@ class rcwa_structure:
         """
 
         if options["RCWA_method"].lower() == "s4":
-            wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+            wl_ind = self.wavelength_index(wavelength, options)
 
             S = self.make_S(options, wl_ind)
 
-- 
2.43.0


From 9e4a767d8a4c5eb17ea8130a5017ea3b954169e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 36/39] fix: unpolarised RCWA results are the mean of both
 polarisations

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 45 ++++++++++++++-----
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 081ab8b..9ea8107 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -58,6 +58,24 @@ def process_pol(input_pol):
     return pol
 
 
+def incoherent_pols(input_pol):
+    # unpolarised light is the average of s and p polarised light, while (s, p) amplitudes which
+    # are both non-zero are light with one polarisation at an angle
+    process_pol(input_pol)  # raises an error for invalid input
+
+    if isinstance(input_pol, str) and input_pol == "u":
+        return [process_pol("s"), process_pol("p")]
+
+    return [process_pol(input_pol)]
+
+
+def average_pols(results, n_pols):
+    # results of successive polarisations, each for all the wavelengths
+    n_wl = len(results) // n_pols
+
+    return [sum(results[i1::n_wl][1:], results[i1]) / n_pols for i1 in range(n_wl)]
+
+
 def set_incident_wave(S, s, p, options, wavelength):
     S.SetExcitationPlanewave(
         (options["theta_in"] * 180 / np.pi, options["phi_in"] * 180 / np.pi), s, p, 0
@@ -187,7 +205,7 @@ def RCWA(
         n_theta_bins = options["n_theta_bins"]
         c_az = options["c_azimuth"]
 
-        pol = process_pol(options["pol"])
+        pols = incoherent_pols(options["pol"])
 
         if options["RCWA_method"].lower() == "s4":
             # RCWA options - S4 only
@@ -264,11 +282,12 @@ def RCWA(
                 side,
                 dist,
             )
+            for pol in pols
             for i1 in range(len(wavelengths))
         )
 
-        A_mat = np.stack([item[2] for item in allres])
-        full_mat = stack([item[3] for item in allres])
+        A_mat = np.stack(average_pols([item[2] for item in allres], len(pols)))
+        full_mat = stack(average_pols([item[3] for item in allres], len(pols)))
 
         A_mat = COO.from_numpy(A_mat)
 
@@ -278,8 +297,8 @@ def RCWA(
             save_npz(path_or_mats[1], A_mat)
 
         if prof_layers is not None:
-            prof_mat = np.stack([item[5] for item in allres])
-            intgr_mat = np.stack([item[6] for item in allres])
+            prof_mat = np.stack(average_pols([item[5] for item in allres], len(pols)))
+            intgr_mat = np.stack(average_pols([item[6] for item in allres], len(pols)))
 
             prof_mat[prof_mat < 0] = 0
 
@@ -1109,7 +1128,7 @@ class rcwa_structure:
         get_wavelength(options)
         wl = options["wavelength"] * 1e9
 
-        pol = process_pol(options["pol"])
+        pols = incoherent_pols(options["pol"])
 
         if not np.array_equal(options["wavelength"], self.current_wavelengths):
             # need to update list of optical constants for correct wavelengths
@@ -1136,17 +1155,18 @@ class rcwa_structure:
                 options["A_per_order"],
                 self.user_options,
             )
+            for pol in pols
             for i1 in range(len(wl))
         )
 
-        R = np.real(np.stack([item[0] for item in allres]))
-        T = np.real(np.stack([item[1] for item in allres]))
-        A_mat = np.real(np.stack([item[2] for item in allres]))
+        R = np.real(np.stack(average_pols([item[0] for item in allres], len(pols))))
+        T = np.real(np.stack(average_pols([item[1] for item in allres], len(pols))))
+        A_mat = np.real(np.stack(average_pols([item[2] for item in allres], len(pols))))
 
         self.rat_output_A = np.sum(A_mat, 1)  # used for profile calculation
 
         if options["A_per_order"]:
-            A_order = np.real(np.stack([item[3] for item in allres]))
+            A_order = np.real(np.stack(average_pols([item[3] for item in allres], len(pols))))
 
             S_for_orders = self.make_S(options, 0)
 
@@ -1183,7 +1203,7 @@ class rcwa_structure:
         get_wavelength(options)
         wl = options["wavelength"] * 1e9
 
-        pol = process_pol(options["pol"])
+        pols = incoherent_pols(options["pol"])
 
         # Need to calculate R, A, T first. If these have already been calculated, it may have been for different
         # options (wavelength, angle, polarization...) or before the structure was changed.
@@ -1224,10 +1244,11 @@ class rcwa_structure:
                 options["orders"],
                 self.user_options,
             )
+            for pol in pols
             for i1 in range(len(wl))
         )
 
-        output = np.real(np.stack(allres))
+        output = np.real(np.stack(average_pols(allres, len(pols))))
 
         output[output < 0] = 0
 
-- 
2.43.0


From a4a87785af18313b230afe540b2ada491b21ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 37/39] fix: RCWA layers with constant refractive index work
 for a single wavelength

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 9ea8107..76e0641 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -979,12 +979,13 @@ class rcwa_structure:
             if isinstance(layer, list):
                 if len(layer) == 4:
                     geom_list.append(layer[3])
+                    # constant, but at least two points are needed for the interpolation
                     list_for_OS.append(
                         [
                             layer[0],
-                            wavelengths,
-                            layer[1] * np.ones_like(wavelengths),
-                            layer[2] * np.ones_like(wavelengths),
+                            np.array([0, 1]),
+                            layer[1] * np.ones(2),
+                            layer[2] * np.ones(2),
                         ]
                     )
 
-- 
2.43.0


From a1d868f6c3495067274bbfc6aeb0b35b18d6e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:14 +0000
Subject: [PATCH 38/39] fix: invalid polarisations are rejected instead of
 treated as unpolarised light

---
 rayflare/ray_tracing/rt.py                      | 4 +++-
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 4 ++--
 rayflare/transfer_matrix_method/tmm.py          | 3 ++-
 rayflare/utilities.py                           | 6 ++++++
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index fdc7aaf..279a18f 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -20,7 +20,7 @@ from warnings import warn
 from solcore.state import State
 
 from rayflare.angles import fold_phi, make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, save_netcdf, get_savepath, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, save_netcdf, get_savepath, get_wavelength, check_pol
 from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
 
 from rayflare import logger
@@ -89,6 +89,7 @@ def RT(
         n_theta_bins = options["n_theta_bins"]
         c_az = options["c_azimuth"]
         pol = options["pol"]
+        check_pol(pol)
 
         if not options["parallel"]:
             n_jobs = 1
@@ -935,6 +936,7 @@ class rt_structure:
         n_reps = int(np.ceil(options["n_rays"] / (nx * ny)))
 
         pol = options["pol"]
+        check_pol(pol)
         randomize = options["randomize_surface"]
 
         initial_mat = (
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 76e0641..6a9774d 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -40,11 +40,11 @@ except Exception as err:
 
 
 def process_pol(input_pol):
-    if len(input_pol) == 2:
+    if not isinstance(input_pol, str) and len(input_pol) == 2:
         pol = input_pol
 
     else:
-        if input_pol in "sp":
+        if input_pol in ("s", "p"):
             pol = (int(input_pol == "s"), int(input_pol == "p"))
 
         elif input_pol == "u":
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 124ef1b..8cd17e7 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -13,7 +13,7 @@ from solcore.absorption_calculator import tmm_core_vec as tmm
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi
-from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, save_netcdf, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, remove_stored_matrices, save_netcdf, get_wavelength, check_pol
 
 
 def TMM(
@@ -605,6 +605,7 @@ class tmm_structure:
         get_wavelength(options)
         wavelength = options["wavelength"] * 1e9
         pol = options["pol"]
+        check_pol(pol)
         angle = options["theta_in"]
 
         coherent = options["coherent"] if "coherent" in options.keys() else True
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 0e1692e..9a7f8ab 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -390,6 +390,12 @@ def get_savepath(save_location, project_name):
     return structpath
 
 
+def check_pol(pol):
+    # polarisations for calculations which do not support (s, p) amplitudes
+    if not (isinstance(pol, str) and pol in ("s", "p", "u")):
+        raise ValueError("Polarization must be 's', 'p' or 'u'.")
+
+
 def get_wavelength(options):
     # wavelengths (plural) will be deprecated and should be wavelength (singular) instead,
     # but this is to ensure backwards compatibility for the next few versions
-- 
2.43.0


From b11f8649016cc4bced1c240a6478b140fd4055ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:14 +0000
Subject: [PATCH 39/39] fix: lookup tables of incoherent layers without a
 coherency list are rejected

---
 rayflare/transfer_matrix_method/lookup_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index 1691d9d..240a9bf 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -96,6 +96,9 @@ def make_TMM_lookuptable(
         )
         optstacks = [optlayers, optlayers_flip]
 
+        if not coherent and coherency_list is None:
+            raise ValueError("A coherency_list must be supplied if coherent = False.")
+
         if coherency_list is not None:
             coherency_lists = [coherency_list, coherency_list[::-1]]
         else:
-- 
2.43.0

