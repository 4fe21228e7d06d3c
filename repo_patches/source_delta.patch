From df2dbfa49507bf9860e75fbecb6b40ec5848cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 01/25] fix: keep the batch dimension of the Lorentz factors
 when there is exactly one reflection

Polycrystal.diffract raised IndexError whenever exactly one reflection fulfilled the Laue equations.
---
 xrd_simulator/scattering_factors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index b58454d..7bc630a 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -64,7 +64,8 @@ def _lorentz(
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
     result = torch.where(condition, torch.tensor(float("inf")), result)
 
-    return result.squeeze()  # Remove singleton dimensions for single vector input
+    # Only a single (non-batched) wave vector yields a scalar
+    return result.squeeze() if k_out.dim() == 1 else result  # Remove singleton dimensions for single vector input
 
 
 def _polarization(k_out: torch.Tensor, pol_vec: torch.Tensor) -> torch.Tensor | float:
-- 
2.43.0


From 93310a564cf0ac192744f9521e5b3b43706e036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 02/25] fix: find the diffraction time when the tangent
 half-angle equation is linear

Solutions with rho_2 == rho_0 (e.g. reflections crossing the Ewald sphere at the
position of a 180 degrees symmetric solution) were silently dropped.
---
 xrd_simulator/laue.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 9881447..3e15a22 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -101,12 +101,18 @@ def _find_solutions_to_tangens_half_angle_equation(
     numerator = rho_2 + rho_0
 
     del rho_2
+    rho_1 = torch.matmul(rho_1_factor, G_0)
+
+    # When rho_2 == rho_0 equation (2) is linear in s and has (at most) one solution.
+    is_linear = denominator == 0
+    s_linear = torch.where(rho_1 == 0, torch.nan, -numerator / (2 * rho_1))
+
     #Remove 0 denominators
-    denominator[denominator==0] = torch.nan
+    denominator[is_linear] = torch.nan
 
     # Calculate coefficients for quadratic equation
     a = torch.divide(
-        torch.matmul(rho_1_factor, G_0),
+        rho_1,
         denominator,
         out=torch.full_like(rho_0, torch.nan)
     )
@@ -117,7 +123,7 @@ def _find_solutions_to_tangens_half_angle_equation(
 
     # Clean up unnecessary variables
 
-    del denominator, numerator, rho_0
+    del denominator, numerator, rho_0, rho_1
 
     # Calculate discriminant
 
@@ -130,6 +136,7 @@ def _find_solutions_to_tangens_half_angle_equation(
 
     # Calculate solutions for s
     s1 = -a + torch.sqrt(discriminant)
+    s1 = torch.where(is_linear, s_linear, s1)
     s2 = -a - torch.sqrt(discriminant)
     del a, discriminant
     t1 = 2 * torch.arctan(s1) / delta_omega
-- 
2.43.0


From e55ec21b478fa6a5073ff14ae85410f4e0b3d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 03/25] fix: TetraMesh.translate translates the current
 coordinates

A translation after a rotation (rotate/update) reset the nodal coordinates to the
non-rotated mesh while centroids and normals kept the rotation.
---
 xrd_simulator/mesh.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 34baafc..0456019 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -225,9 +225,12 @@ class TetraMesh(object):
         # Convert to numpy if torch tensor
         if torch.is_tensor(translation_vector):
             translation_vector = utils.ensure_numpy(translation_vector)
-        
-        self._mesh.points += translation_vector
-        self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)
+        # The current nodal coordinates are translated; self._mesh.points does not
+        # follow the rigid body motions applied by update() and rotate().
+        self.coord = self.coord + utils.ensure_torch(
+            translation_vector, dtype=torch.float64
+        )
+        self._mesh.points = utils.ensure_numpy(self.coord)
         self.ecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
         self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
         self.centroid += utils.ensure_torch(translation_vector, dtype=torch.float64)
-- 
2.43.0


From ecdb1badbd666a7f2ddeb3aa0178350ecda49eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 04/25] fix: element volumes are positive for any node ordering

TetraMesh.evolumes was negative for elements with left handed node order.
---
 xrd_simulator/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 0456019..5263e4c 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -458,7 +458,7 @@ class TetraMesh(object):
         a = vertices[:, 1, :] - vertices[:, 0, :]
         b = vertices[:, 2, :] - vertices[:, 0, :]
         c = vertices[:, 3, :] - vertices[:, 0, :]
-        evolumes = (1 / 6.0) * torch.sum(torch.cross(a, b, dim=1) * c, dim=1)
+        evolumes = (1 / 6.0) * torch.abs(torch.sum(torch.cross(a, b, dim=1) * c, dim=1))
         return evolumes
 
     def _compute_mesh_spheres(self, coord, enod):
-- 
2.43.0


From 1326a5d060c309b12caffcd2e7e9d45563ddb7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 05/25] fix: Polycrystal.save writes the xdmf next to the .pc
 file when the path contains dots

E.g. saving to "./sample.pc" wrote the hidden file ".xdmf" in the working directory.
---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 2458a2d..13a79de 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -456,7 +456,7 @@ class Polycrystal:
             xdmf_path = path + ".xdmf"
         else:
             pickle_path = path
-            xdmf_path = path.split(".")[0] + ".xdmf"
+            xdmf_path = path[: -len(".pc")] + ".xdmf"
         with open(pickle_path, "wb") as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
-- 
2.43.0


From 2c6728135f511f99a9d6ededc0625c79f9b3a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 06/25] fix: unfeasible strains in a batch raise the documented
 ValueError

For one or two elements an IndexError was raised while formatting the message.
---
 xrd_simulator/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index b01fd11..0091fa3 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -331,9 +331,11 @@ def _epsilon_to_b(crystal_strain, B0):
 
     eigen_vals = torch.linalg.eigvalsh(C)
     if torch.any(eigen_vals < 0):
+        unfeasible = torch.any(eigen_vals < 0, dim=-1).reshape(-1)
+        unfeasible_strain = crystal_strain.reshape(-1, 3, 3)[unfeasible][0]
         raise ValueError(
             "Unfeasible strain tensor with value: "
-            + str(_strain_as_vector(crystal_strain))
+            + str(_strain_as_vector(unfeasible_strain))
             + ", will invert the unit cell with negative deformation gradient tensor determinant"
         )
     if C.ndim == 3:
-- 
2.43.0


From 98c8ec1e175b1bfb60b32f8408ef721da0841e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 07/25] fix: single phase polycrystals without an
 element_phase_map can diffract

The default map was a numpy array, which torch.where in diffract() does not accept.
---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 13a79de..cc588db 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -624,7 +624,7 @@ class Polycrystal:
         if element_phase_map is None:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
-            element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
+            element_phase_map = torch.zeros((mesh.number_of_elements,))
         else:
             element_phase_map = ensure_torch(element_phase_map)
         return element_phase_map, phases
-- 
2.43.0


From 1357c161c54ea6364861566f79f05bb210b110ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 08/25] fix: lines passing outside of a face they are parallel
 to have zero clip length

---
 xrd_simulator/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index 0091fa3..ccad833 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -214,7 +214,11 @@ def _clip_line_with_convex_polyhedron(
     t_l = torch.min(t_i[:, tl_mask], dim=1).values
 
     # Return clipped lengths, using zero for non-intersecting lines
-    return torch.where(t_l > t_e + 1e-12, t_l - t_e, 0.0)
+    clip_lengths = torch.where(t_l > t_e + 1e-12, t_l - t_e, 0.0)
+
+    # Lines that run parallel to a face and outside of it never enter the polyhedron
+    outside = torch.any(numerator[:, t2 == 0] < 0, dim=1)
+    return torch.where(outside, 0.0, clip_lengths)
 
 
 def _alpha_to_quarternion(alpha_1, alpha_2, alpha_3):
-- 
2.43.0


From ed8dff91fbccc1d31470d939910a0fa99f6f953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 09/25] fix: rigid body motion of (N, M, 3) vectors accepts the
 documented scalar time

---
 xrd_simulator/motion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e7c639..12b9519 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -126,6 +126,7 @@ class RigidBodyMotion:
         elif len(vectors.shape) == 3:
             # Handle (N, M, 3) input shapes - typically (N_peaks, 4_vertices, 3_coords)
             N, M, _ = vectors.shape
+            time = time.reshape(-1).expand(N)  # scalar times apply to all vectors
             translation = self.translation.reshape(1, 3)
             origin = self.origin.reshape(1, 3)
             centered_vectors = vectors - origin
-- 
2.43.0


From 1ade8030440db9bfdc9d4aa805c403cb7d95be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 10/25] fix: the detector pixel grid has the requested number
 of pixels

Round off in zmax / n_pixels gave e.g. 50 x 50 pixels for n_pixels=49.
---
 xrd_simulator/detector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b520994..a21dfe5 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -413,8 +413,11 @@ class Detector:
         # Get device from det_corner_0 to ensure all tensors are on same device
         dev = self.det_corner_0.device
 
-        zds = torch.arange(0, self.zmax, self.pixel_size_z, device=dev)
-        yds = torch.arange(0, self.ymax, self.pixel_size_y, device=dev)
+        # Tolerate round off in the pixel size to not add a row or column of pixels
+        n_z = int(torch.ceil(self.zmax / self.pixel_size_z - 1e-9))
+        n_y = int(torch.ceil(self.ymax / self.pixel_size_y - 1e-9))
+        zds = torch.arange(n_z, device=dev) * self.pixel_size_z
+        yds = torch.arange(n_y, device=dev) * self.pixel_size_y
         Z, Y = torch.meshgrid(zds, yds, indexing="ij")
         Zds = torch.zeros((len(zds), len(yds), 3), device=dev)
         Yds = torch.zeros((len(zds), len(yds), 3), device=dev)
-- 
2.43.0


From f7bf4bc0ef6f933b935e15fd68e5318826a26d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 11/25] fix: auto rendering draws each peak once when
 macro_grain_limit < micro_grain_limit

For pixels smaller than 0.1 microns peaks were drawn by both the macro and nano methods.
---
 xrd_simulator/detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index a21dfe5..55ae442 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -338,8 +338,10 @@ class Detector:
         elif method == "auto":
             if macro_grain_limit is None:
                 macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3
-            large_grains_mask = peaks[:, 21] >= macro_grain_limit
             small_grains_mask = peaks[:, 21] < micro_grain_limit
+            large_grains_mask = (peaks[:, 21] >= macro_grain_limit) & (
+                ~small_grains_mask
+            )
             medium_grains_mask = (~large_grains_mask) & (~small_grains_mask)
 
             diffraction_frames = torch.zeros(
-- 
2.43.0


From 37a4df0999e74598b1c3e7c5d2418b1f242bfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 12/25] fix: macro rendering of tetra partially projected
 outside of the detector

Sampled rays that miss the detector raised IndexError or wrapped around to the
opposite side of the bounding box.
---
 xrd_simulator/detector.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 55ae442..2e76d15 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1665,9 +1665,17 @@ class Detector:
             col_index = ensure_numpy(yd / self.pixel_size_y).astype(int) - box[2]
 
             box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
-            np.add.at(box_intensities, (row_index, col_index), clip_lengths)
-            box_intensities /= box_intensities.sum()
-            box_intensities *= proj_context["convex_hull"].volume
+            # rays may miss the box, e.g. when the tetra is partially projected off the detector
+            hits_box = (row_index >= 0) & (row_index < box_intensities.shape[0])
+            hits_box &= (col_index >= 0) & (col_index < box_intensities.shape[1])
+            np.add.at(
+                box_intensities,
+                (row_index[hits_box], col_index[hits_box]),
+                ensure_numpy(clip_lengths)[hits_box],
+            )
+            if box_intensities.sum() > 0:
+                box_intensities /= box_intensities.sum()
+                box_intensities *= proj_context["convex_hull"].volume
 
             return ensure_torch(box_intensities)
 
-- 
2.43.0


From 7724f38ec851e08dfcb132388db0867238b29263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 13/25] fix: macro rendering does not fill the frame with NaN
 when no pixel ray hits a tetra

The projection of a thin tetra can pass between all of the pixel rays of its bounding
box, in which case the frame became NaN (0 / 0).
---
 xrd_simulator/detector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 2e76d15..c2b6f52 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1691,8 +1691,9 @@ class Detector:
 
             # ensure that scattering is proportional to the material volume
             # that is scattering.
-            clip_lengths /= clip_lengths.sum()
-            clip_lengths *= proj_context["convex_hull"].volume
+            if clip_lengths.sum() > 0:
+                clip_lengths /= clip_lengths.sum()
+                clip_lengths *= proj_context["convex_hull"].volume
             clip_lengths = clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
 
         return clip_lengths
-- 
2.43.0


From 50a90ff4472fc27b5f166506cf7966ad51ebb90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 14/25] fix: rotating vectors of shape (1, 3) keeps their shape

---
 xrd_simulator/motion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 12b9519..e3949ac 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -363,13 +363,16 @@ class _RodriguezRotator(object):
         R = self.get_rotation_matrix(rotation_angle)
         vectors = ensure_torch(vectors)
 
-        if len(vectors.shape) == 1:
+        single_vector = len(vectors.shape) == 1
+        if single_vector:
             vectors = vectors[None, :]
         
         # Handle both scalar and vector rotation_angle cases
         if rotation_angle.ndim == 0:
             # Scalar case: R is (3,3), vectors is (N,3) -> output (N,3)
-            return torch.squeeze(torch.matmul(R, vectors[:, :, None]))
+            # Only the axis added for a single (3,) vector is removed again
+            rotated = torch.matmul(R, vectors[:, :, None]).squeeze(-1)
+            return rotated[0] if single_vector else rotated
         else:
             # Vector case: R is (N,3,3), vectors is (N,3) -> output (N,3)
             # Use bmm: (N,3,3) × (N,3,1) -> (N,3,1) -> squeeze to (N,3)
-- 
2.43.0


From 74d2813de1bb81d80078b049f9cfc855161e5bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:14 +0000
Subject: [PATCH 15/25] fix: nano rendering samples the Airy kernel
 symmetrically around the peak

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index c2b6f52..42237c3 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1225,7 +1225,8 @@ class Detector:
         # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
         # for small crystallites (broad patterns)
         # Use ~4 times the first zero to capture sufficient rings
-        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0))
+        # (a whole number of pixels, such that the kernel is sampled symmetrically around zero)
+        radius = torch.tensor(max(float(np.ceil(4.0 * float(max_first_zero))), 8.0))
 
         # Ensure we also capture Gaussian tails (cap at 128 pixels)
         max_airy_radius = 128
-- 
2.43.0


From 7af2823aeb74d6e9145c526cd93d0bb4c1555479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:55 +0000
Subject: [PATCH 16/25] fix: TetraMesh.save leaves the caller's element_data as
 it was

---
 xrd_simulator/mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 5263e4c..2c445a3 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -289,6 +289,7 @@ class TetraMesh(object):
             save_path = file
 
         if element_data is not None:
+            element_data = dict(element_data)
             for key in element_data:
                 if torch.is_tensor(element_data[key]):
                     element_data[key] = [list(utils.ensure_numpy(element_data[key]))]
-- 
2.43.0


From 2444145550bf6b4e32a0b309311dd7b7f69de3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 17/25] fix: orientation density and strain functions get numpy
 coordinates as documented

---
 xrd_simulator/templates.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/templates.py b/xrd_simulator/templates.py
index d5d5e9b..ea5adf5 100644
--- a/xrd_simulator/templates.py
+++ b/xrd_simulator/templates.py
@@ -241,16 +241,19 @@ def polycrystal_from_odf(
     phases = [Phase(unit_cell, sgname, path_to_cif_file)]
     element_phase_map = np.zeros((mesh.number_of_elements,)).astype(int)
 
+    # The density and strain functions take numpy coordinates
+    centroids = utils.ensure_numpy(mesh.ecentroids)
+
     # Sample spatial texture
     orientation = _sample_ODF(
-        orientation_density_function, maximum_sampling_bin_seperation, mesh.ecentroids
+        orientation_density_function, maximum_sampling_bin_seperation, centroids
     )
 
     # Sample spatial strain
     strain_lab = np.zeros((mesh.number_of_elements, 3, 3))
     for ei in range(mesh.number_of_elements):
         # strain in lab/sample-coordinates
-        strain_lab[ei] = strain_tensor(mesh.ecentroids[ei])
+        strain_lab[ei] = strain_tensor(centroids[ei])
 
     return Polycrystal(
         mesh,
-- 
2.43.0


From 5bb21f5e7591b442e246eabbc6b4d4d32cb7c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:09 +0000
Subject: [PATCH 18/25] fix: candidate spheres under a combined rotation and
 translation

The beam hull was moved by RigidBodyMotion.inverse(), which is the inverse
only for pure rotations or translations, so spheres that enter the beam were
excluded. Move the sphere centres with the motion instead.
---
 xrd_simulator/beam.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 8724621..047666a 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -331,8 +331,6 @@ class Beam:
             has a high intersection probability and ``sample_times`` contains
             the time samples used for checking.
         """
-        inverse_rigid_body_motion = rigid_body_motion.inverse()
-
         dx = torch.min(sphere_radius) / 2.0
         translation = torch.abs(rigid_body_motion.translation / dx)
         number_of_sampling_points = int(
@@ -350,15 +348,11 @@ class Beam:
         sample_times = torch.linspace(0, 1, number_of_sampling_points)
 
         R = sphere_radius.reshape(1, sphere_radius.shape[0])
+        normals, distances = self.halfspaces[:, 0:3], self.halfspaces[:, 3:4]
         not_candidates = torch.zeros((len(sample_times), R.shape[1]), dtype=torch.bool)
         for i, time in enumerate(sample_times):
-            halfspaces = ConvexHull(
-                inverse_rigid_body_motion(self.vertices, time=time).cpu().numpy()
-            ).equations
-            halfspaces = np.unique(halfspaces.round(decimals=6), axis=0)
-            normals = ensure_torch(halfspaces[:, 0:3])
-            distances = ensure_torch(halfspaces[:, 3]).reshape(normals.shape[0], 1)
-            sphere_beam_distances = normals.matmul(sphere_centres.T) + distances
+            centres = rigid_body_motion(sphere_centres, time=time)
+            sphere_beam_distances = normals.matmul(centres.T) + distances
             not_candidates[i, :] += torch.any(sphere_beam_distances > R, axis=0)
 
         return ~not_candidates, sample_times
-- 
2.43.0


From 1bfb3df1b72e0823d5ee29f3c1718c8bdb8fae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:45 +0000
Subject: [PATCH 19/25] fix: beam intersection of crystals with a pencil beam
 raised LinAlgError

With fewer than three active half-spaces the normal equations of the step off
the active planes are singular; take the least squares step of minimal length.
---
 xrd_simulator/beam.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 047666a..aa023f7 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -286,9 +286,7 @@ class Beam:
         if res.success:
             if np.any(res.slack == 0):
                 A = halfspaces[res.slack == 0, :-1]
-                dx = np.linalg.solve(
-                    A.T.dot(A), A.T.dot(-np.ones((A.shape[0],)) * 1e-5)
-                )
+                dx = np.linalg.lstsq(A, -np.ones((A.shape[0],)) * 1e-5, rcond=None)[0]
                 trial = res.x + dx
             else:
                 trial = res.x
-- 
2.43.0


From e6e28d698f054b75212b5506474483c44b1f1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 20/25] fix: point in the overlap of two convex bodies was
 missed in thin or degenerate cases

The step off the active half-spaces of an arbitrary feasible point could leave
the overlap; take the centre of the largest inscribed ball instead.
---
 xrd_simulator/beam.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index aa023f7..7597b10 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -272,11 +272,13 @@ class Beam:
             Interior point if found, otherwise ``None``.
         """
         halfspaces = ensure_numpy(halfspaces)
+        # Maximise the radius (here at most 1) of a ball inside the halfspaces.
+        norms = np.linalg.norm(halfspaces[:, :-1], axis=1)
         res = linprog(
-            c=np.zeros((3,)),
-            A_ub=halfspaces[:, :-1],
+            c=np.array([0.0, 0.0, 0.0, -1.0]),
+            A_ub=np.column_stack((halfspaces[:, :-1], norms)),
             b_ub=-halfspaces[:, -1],
-            bounds=(None, None),
+            bounds=[(None, None), (None, None), (None, None), (0, 1)],
             method="highs",
             options={
                 "maxiter": 5000,
@@ -284,12 +286,7 @@ class Beam:
             },  # typical solve time is ~1-2 ms
         )
         if res.success:
-            if np.any(res.slack == 0):
-                A = halfspaces[res.slack == 0, :-1]
-                dx = np.linalg.lstsq(A, -np.ones((A.shape[0],)) * 1e-5, rcond=None)[0]
-                trial = res.x + dx
-            else:
-                trial = res.x
+            trial = res.x[:-1]
             if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):
                 return trial
             else:
-- 
2.43.0


From 6e3c09137e28303393d725a21e5d955e8429a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 21/25] fix: Lorentz factor of poles is infinite, not NaN, when
 roundoff takes a cosine outside of [-1, 1]

---
 xrd_simulator/scattering_factors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index 7bc630a..3722c8b 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -46,12 +46,14 @@ def _lorentz(
     # Normalize k for dot product calculation
     k_norm_sq = torch.linalg.norm(k_in) ** 2
     k_kp_norm = torch.matmul(k_in, kp.T) / k_norm_sq
-    theta = torch.arccos(k_kp_norm) / 2.0
+    # Cosines are clamped as roundoff can take them slightly outside of [-1, 1]
+    theta = torch.arccos(torch.clamp(k_kp_norm, -1.0, 1.0)) / 2.0
 
     # Calculate korthogonal same way as in old version
     korthogonal = kp - k_in.reshape(1, 3) * (k_kp_norm.reshape(-1, 1))
     korth_norm = torch.linalg.norm(korthogonal, dim=1)
-    eta = torch.arccos(torch.matmul(rot_axis, korthogonal.T) / korth_norm)
+    cos_eta = torch.matmul(rot_axis, korthogonal.T) / korth_norm
+    eta = torch.arccos(torch.clamp(cos_eta, -1.0, 1.0))
 
     # Apply tolerance conditions
     tol = 0.5
-- 
2.43.0


From 54fb1630dc745c064f8752391b85e4956549155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 22/25] fix: incident angle of a ray along the detector normal
 is not NaN

---
 xrd_simulator/detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 42237c3..dbfc47c 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -469,6 +469,8 @@ class Detector:
         ray_dir_norm = ray_direction / torch.norm(ray_direction, dim=1).unsqueeze(-1)
         normal_norm = self.normal / torch.linalg.norm(self.normal)
         cosine_theta = torch.matmul(ray_dir_norm, -normal_norm)
+        # Roundoff can take the cosine of a ray along the normal outside of [-1, 1]
+        cosine_theta = torch.clamp(cosine_theta, -1.0, 1.0)
         incident_angle_deg = torch.arccos(cosine_theta) * (180 / torch.pi)
         return torch.stack((zd, yd, incident_angle_deg), dim=1)
 
-- 
2.43.0


From 90d8b04c5831cf03373d3dc702b54a234a873fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 23/25] fix: wrapping cone with a detector corner in the beam
 line is not NaN

---
 xrd_simulator/detector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index dbfc47c..4471545 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -509,9 +509,11 @@ class Detector:
         ):
             geom_mat[:, i] = det_corner - source_point
         normalised_local_coord_geom_mat = geom_mat / torch.linalg.norm(geom_mat, axis=0)
-        cone_opening = torch.arccos(
-            torch.matmul(normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k))
+        cosines = torch.matmul(
+            normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k)
         )
+        # Roundoff can take the cosine of a corner in the beam line outside of [-1, 1]
+        cone_opening = torch.arccos(torch.clamp(cosines, -1.0, 1.0))
         return torch.max(cone_opening) / 2.0
 
     def _detector_coordinate_to_pixel_index(
-- 
2.43.0


From df7fa970df4de9401dfa469f75d9257d7f68e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 24/25] fix: macro frames reach the last pixel row and column
 of the detector

---
 xrd_simulator/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 4471545..5782038 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -596,8 +596,8 @@ class Detector:
             max_zd, max_yd
         )
 
-        max_row_indx = min(max_row_indx + 1, int(zmax / self.pixel_size_z))
-        max_col_indx = min(max_col_indx + 1, int(ymax / self.pixel_size_y))
+        max_row_indx = min(max_row_indx + 1, self.pixel_coordinates.shape[0])
+        max_col_indx = min(max_col_indx + 1, self.pixel_coordinates.shape[1])
 
         return min_row_indx, max_row_indx, min_col_indx, max_col_indx
 
-- 
2.43.0


From 899892bcfa8b4f6069db911fd14ad67a38e623db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:07 +0000
Subject: [PATCH 25/25] fix: candidate spheres are sampled at the documented
 step

The number of intervals was truncated and the translation was measured per
component, so that a sphere could move by more than half its radius, and
the sample turn by up to 1.5 degrees, between two sampled times.
---
 xrd_simulator/beam.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 7597b10..58f1cef 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -327,15 +327,17 @@ class Beam:
             the time samples used for checking.
         """
         dx = torch.min(sphere_radius) / 2.0
-        translation = torch.abs(rigid_body_motion.translation / dx)
+        translation = torch.linalg.norm(rigid_body_motion.translation) / dx
         number_of_sampling_points = int(
-            torch.max(
-                ensure_torch(
-                    [
-                        torch.max(translation),
-                        torch.rad2deg(rigid_body_motion.rotation_angle),
-                        ensure_torch(2.0),
-                    ]
+            torch.ceil(
+                torch.max(
+                    ensure_torch(
+                        [
+                            translation,
+                            torch.rad2deg(rigid_body_motion.rotation_angle),
+                            ensure_torch(2.0),
+                        ]
+                    )
                 )
             ).item()
             + 1
-- 
2.43.0

