From 168b555930dadbfb108e95edf148ad1858c5f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 01/31] fix: diffract fails when exactly one reflection
 diffracts

_lorentz squeezed a batch of one reflection to a scalar.
---
 xrd_simulator/scattering_factors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index b58454d..ecfd6e5 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -64,7 +64,8 @@ def _lorentz(
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
     result = torch.where(condition, torch.tensor(float("inf")), result)
 
-    return result.squeeze()  # Remove singleton dimensions for single vector input
+    # Remove singleton dimension for single vector input only
+    return result.squeeze() if k_out.dim() == 1 else result
 
 
 def _polarization(k_out: torch.Tensor, pol_vec: torch.Tensor) -> torch.Tensor | float:
-- 
2.43.0


From 852648e890c926fdf99e55f7046f3e8511fff015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/31] fix: single-phase Polycrystal without element_phase_map
 cannot diffract

The default phase map stayed a numpy array, which torch.where rejects.
---
 xrd_simulator/polycrystal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 2458a2d..a6b60be 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -625,8 +625,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        else:
-            element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map)
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 2ef51052efe5d94ac28e3180e2ddd71e9b8a3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 03/31] fix: Polycrystal.save puts the xdmf in the wrong place
 for paths with dots

The path was cut at its first dot, so './a.pc' wrote '.xdmf' and
'run.1/a.pc' and 'run.1/b.pc' both wrote 'run.xdmf'.
---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index a6b60be..a1d70b5 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -456,7 +456,7 @@ class Polycrystal:
             xdmf_path = path + ".xdmf"
         else:
             pickle_path = path
-            xdmf_path = path.split(".")[0] + ".xdmf"
+            xdmf_path = path[: -len(".pc")] + ".xdmf"
         with open(pickle_path, "wb") as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
-- 
2.43.0


From 4d3b95b18d09470c45bdc6af2d2a860193164069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 04/31] fix: TetraMesh.translate undoes earlier rotations of
 the node coordinates

translate moved the original meshio points, which rotate and update never
changed, so coord fell out of step with normals and centroids. It also
changed tensors in place that a copy of the mesh may share.
---
 xrd_simulator/mesh.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 34baafc..fd1ba38 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -222,15 +222,18 @@ class TetraMesh(object):
         translation_vector : numpy.ndarray or torch.Tensor
             Translation vector ``[x, y, z]``, shape ``(3,)``.
         """
-        # Convert to numpy if torch tensor
-        if torch.is_tensor(translation_vector):
-            translation_vector = utils.ensure_numpy(translation_vector)
-        
-        self._mesh.points += translation_vector
-        self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)
-        self.ecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-        self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-        self.centroid += utils.ensure_torch(translation_vector, dtype=torch.float64)
+        translation = utils.ensure_torch(translation_vector, dtype=torch.float64)
+
+        # Compute everything first so that a failure leaves the mesh as it was.
+        coord = self.coord + translation
+        ecentroids = self.ecentroids + translation
+        espherecentroids = self.espherecentroids + translation
+        centroid = self.centroid + translation
+
+        self.coord = coord
+        self.ecentroids = ecentroids
+        self.espherecentroids = espherecentroids
+        self.centroid = centroid
 
     def rotate(self, rotation_axis, angle):
         """Rotate the mesh.
-- 
2.43.0


From a378d3870b909a24d8407b6152a9bbdc2800c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 05/31] fix: configure_device records a device that torch
 rejected

The selection was stored before torch.set_default_device could fail, so
get_selected_device and the torch default could disagree.
---
 xrd_simulator/cuda.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xrd_simulator/cuda.py b/xrd_simulator/cuda.py
index 5a28f89..6956209 100644
--- a/xrd_simulator/cuda.py
+++ b/xrd_simulator/cuda.py
@@ -50,14 +50,14 @@ def configure_device(device=None, verbose=True):
         )
 
     # Set device based on availability
-    if want_gpu and torch.cuda.is_available():
-        _device = "cuda"
-    else:
-        if want_gpu and not torch.cuda.is_available() and verbose:
-            print("CUDA requested but not available. Falling back to CPU.")
-        _device = "cpu"
+    gpu_available = want_gpu and torch.cuda.is_available()
+    if want_gpu and not gpu_available and verbose:
+        print("CUDA requested but not available. Falling back to CPU.")
+    selected = "cuda" if gpu_available else "cpu"
 
-    torch.set_default_device(_device)
+    # Record the selection only once torch has accepted it
+    torch.set_default_device(selected)
+    _device = selected
 
     if verbose:
         print(f"Using device: {_device}")
-- 
2.43.0


From 6f4cca61eb5e715f52760bc10e14eac8c7fa2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 06/31] fix: a failing transform leaves a half-moved sample

Polycrystal.transform, TetraMesh.update and Beam.set_beam_vertices stored
each quantity as it was computed; an error or Ctrl-C in between left node
coordinates, normals, orientations and strains out of step. Compute
everything, then store. transform moves a copy of the lab mesh, so that
earlier diffraction results keep the mesh they were computed from.
---
 xrd_simulator/beam.py        | 13 +++++++++----
 xrd_simulator/mesh.py        | 21 ++++++++++++++-------
 xrd_simulator/polycrystal.py | 12 +++++++++---
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 8724621..92395b9 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -96,18 +96,23 @@ class Beam:
         assert ch.points.shape[0] == ch.vertices.shape[0], (
             "The provided beam vertices does not form a convex hull"
         )
-        self.vertices = beam_vertices.clone()
-        self.centroid = torch.mean(self.vertices, axis=0)
+        # Compute everything first so that a failure leaves the beam as it was.
+        vertices = beam_vertices.clone()
+        centroid = torch.mean(vertices, axis=0)
         # ConvexHull requires numpy, convert result back to torch
-        self.halfspaces = ensure_torch(
+        halfspaces = ensure_torch(
             np.unique(
                 ConvexHull(
-                    ensure_numpy(self.vertices), qhull_options="QJ"
+                    ensure_numpy(vertices), qhull_options="QJ"
                 ).equations.round(decimals=6),
                 axis=0,
             )
         )
 
+        self.vertices = vertices
+        self.centroid = centroid
+        self.halfspaces = halfspaces
+
     def _contains(self, points):
         """Check if the beam contains a number of point(s).
 
diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index fd1ba38..f1793f4 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -259,18 +259,25 @@ class TetraMesh(object):
         time : float
             Time between ``[0, 1]`` at which to call the rigid body motion.
         """
-        self.coord = rigid_body_motion(self.coord, time=time)
+        # Compute everything first so that a failure leaves the mesh as it was.
+        coord = rigid_body_motion(self.coord, time=time)
 
         # Reshape and rotate normals
         s1, s2, s3 = self.enormals.shape
-        self.enormals = self.enormals.reshape(s1 * s2, 3)
-        self.enormals = rigid_body_motion.rotate(self.enormals, time=time)
-        self.enormals = self.enormals.reshape(s1, s2, s3)
+        enormals = self.enormals.reshape(s1 * s2, 3)
+        enormals = rigid_body_motion.rotate(enormals, time=time)
+        enormals = enormals.reshape(s1, s2, s3)
 
         # Update centroids and sphere data
-        self.ecentroids = rigid_body_motion(self.ecentroids, time=time)
-        self.espherecentroids = rigid_body_motion(self.espherecentroids, time=time)
-        self.centroid = rigid_body_motion(self.centroid.unsqueeze(0), time=time).squeeze(0)
+        ecentroids = rigid_body_motion(self.ecentroids, time=time)
+        espherecentroids = rigid_body_motion(self.espherecentroids, time=time)
+        centroid = rigid_body_motion(self.centroid.unsqueeze(0), time=time).squeeze(0)
+
+        self.coord = coord
+        self.enormals = enormals
+        self.ecentroids = ecentroids
+        self.espherecentroids = espherecentroids
+        self.centroid = centroid
 
     def save(self, file, element_data=None):
         """Save the tetra mesh to .xdmf paraview readable format.
diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index a1d70b5..056c132 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -417,7 +417,9 @@ class Polycrystal:
         time : float
             Time between ``[0, 1]`` at which to call the rigid body motion.
         """
-        self.mesh_lab.update(rigid_body_motion, time)
+        # Compute everything first so that a failure leaves the sample as it was.
+        mesh_lab = copy.copy(self.mesh_lab)
+        mesh_lab.update(rigid_body_motion, time)
 
         Rot_mat = rigid_body_motion.rotator.get_rotation_matrix(
             rigid_body_motion.rotation_angle * time
@@ -427,11 +429,15 @@ class Polycrystal:
         if Rot_mat.ndim == 2:
             Rot_mat = Rot_mat.unsqueeze(0)  # (3, 3) -> (1, 3, 3)
         
-        self.orientation_lab = torch.matmul(Rot_mat, self.orientation_lab)
-        self.strain_lab = torch.matmul(
+        orientation_lab = torch.matmul(Rot_mat, self.orientation_lab)
+        strain_lab = torch.matmul(
             torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)
         )
 
+        self.mesh_lab = mesh_lab
+        self.orientation_lab = orientation_lab
+        self.strain_lab = strain_lab
+
     def save(self, path: str, save_mesh_as_xdmf: bool = True) -> None:
         """Save polycrystal to disc via pickling.
 
-- 
2.43.0


From 43c958041180f1fd86a642258b147890ffa3fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 07/31] fix: diffraction results change when sample, beam or
 motion move later

diffract returned the live lab mesh, motion and beam, so transforming the
sample or moving the beam before a macro render changed the image of an
already computed diffraction.
---
 xrd_simulator/polycrystal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 056c132..cedd8be 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -222,10 +222,11 @@ class Polycrystal:
             "incident_vector": beam.wave_vector,
             "wavelength": beam.wavelength,
             "rotation_axis": rigid_body_motion.rotation_axis,
-            # Store mesh and motion data for on-demand hull computation
-            "mesh_lab": self.mesh_lab,
-            "rigid_body_motion": rigid_body_motion,
-            "beam": beam,
+            # Store mesh and motion data for on-demand hull computation. These are
+            # copies: the sample, motion and beam may change before rendering.
+            "mesh_lab": copy.copy(self.mesh_lab),
+            "rigid_body_motion": copy.deepcopy(rigid_body_motion),
+            "beam": copy.deepcopy(beam),
             "verbose": verbose,
         }
 
-- 
2.43.0


From 9ba9ffc78402e30f922f93c30f2037aa7c4b9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 08/31] fix: threads sharing a Phase diffract each other's
 lattice planes

diffract stored the planes for its wavelength and Bragg limits on the phase
and read them back later; a concurrent diffract could replace them.
---
 xrd_simulator/phase.py       | 33 ++++++++++++++++++++++++++++++---
 xrd_simulator/polycrystal.py | 17 +++++++++++------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index 8821f60..0175e99 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -92,6 +92,13 @@ class Phase(object):
         max_bragg_angle : float
             Maximum Bragg angle, in radians, allowed during diffraction.
 
+        Returns
+        -------
+        tuple
+            ``(miller_indices, structure_factors)`` as set on the phase. The
+            phase may be shared by threads that diffract at the same time, so
+            callers should use these rather than the attributes.
+
         Notes
         -----
         This function will skip Miller indices that have zero intensity due to
@@ -100,10 +107,14 @@ class Phase(object):
         """
         sintlmin = np.sin(min_bragg_angle) / wavelength
         sintlmax = np.sin(max_bragg_angle) / wavelength
-        self.miller_indices = tools.genhkl_all(
+        miller_indices = tools.genhkl_all(
             self.unit_cell, sintlmin, sintlmax, sgname=self.sgname)
+        structure_factors = self.structure_factors
         if self.path_to_cif_file is not None:
-            self._set_structure_factors(self.miller_indices)
+            structure_factors = self._compute_structure_factors(miller_indices)
+        self.miller_indices = miller_indices
+        self.structure_factors = structure_factors
+        return miller_indices, structure_factors
 
     def _set_structure_factors(self, miller_indices):
         """Generate unit cell structure factors for all Miller indices.
@@ -118,9 +129,25 @@ class Phase(object):
             Miller indices for which to compute structure factors,
             shape ``(n, 3)``.
         """
+        self.structure_factors = self._compute_structure_factors(miller_indices)
+
+    def _compute_structure_factors(self, miller_indices):
+        """Compute structure factors for all Miller indices.
+
+        Parameters
+        ----------
+        miller_indices : numpy.ndarray
+            Miller indices for which to compute structure factors,
+            shape ``(n, 3)``.
+
+        Returns
+        -------
+        numpy.ndarray
+            Structure factors, shape ``(n, 2)``.
+        """
         from xrd_simulator.structure_factors import compute_structure_factors_batch
 
-        self.structure_factors = compute_structure_factors_batch(
+        return compute_structure_factors_batch(
             miller_indices,
             self.unit_cell,
             self.sgname,
diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index cedd8be..bd533bb 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -157,12 +157,14 @@ class Polycrystal:
                 detector, beam, min_bragg_angle, max_bragg_angle
             )
 
-        for phase in self.phases:
+        planes = [
             phase._setup_diffracting_planes(
                 beam.wavelength, min_bragg_angle, max_bragg_angle
             )
+            for phase in self.phases
+        ]
 
-        peaks = self._compute_peaks(beam, rigid_body_motion, verbose=verbose)
+        peaks = self._compute_peaks(beam, rigid_body_motion, planes, verbose=verbose)
 
         # Filter peaks by beam illumination using source positions
         source_points = peaks[:, 16:19].T  # Get source points (x,y,z) and transpose for contains method
@@ -232,7 +234,7 @@ class Polycrystal:
 
         return peaks_dict
 
-    def _compute_peaks(self, beam, rigid_body_motion, verbose=True):
+    def _compute_peaks(self, beam, rigid_body_motion, planes, verbose=True):
         """Compute diffraction for the polycrystal.
 
         Parameters
@@ -241,6 +243,8 @@ class Polycrystal:
             Object representing the incident X-ray beam.
         rigid_body_motion : RigidBodyMotion
             Object describing the polycrystal's transformation.
+        planes : list of tuple
+            Miller indices and structure factors of each phase.
         verbose : bool, optional
             If ``True``, print progress messages. Default is ``True``.
 
@@ -288,11 +292,12 @@ class Polycrystal:
 
             # Get all scatterers belonging to one phase at a time, and the corresponding miller indices.
             grain_indices = torch.where(element_phase_map == i)[0]
-            miller_indices = ensure_torch(phase.miller_indices)
+            miller_indices, structure_factors = planes[i]
+            miller_indices = ensure_torch(miller_indices)
             # # Retrieve the structure factors of the miller indices for this phase, exclude the miller incides with zero structure factor
-            if phase.structure_factors is not None:
+            if structure_factors is not None:
                 structure_factors = torch.sum(
-                    ensure_torch(phase.structure_factors) ** 2, axis=1
+                    ensure_torch(structure_factors) ** 2, axis=1
                 )
                 miller_indices = miller_indices[structure_factors > 1e-6]
                 structure_factors = structure_factors[structure_factors > 1e-6]
-- 
2.43.0


From 1a9f511eaf4385c7c032f19f1e39e81c6963fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 09/31] fix: nano peaks depend on the other peaks in their
 memory batch

The Airy kernel grid was sized from the largest kernel of the batch, and
batches follow free memory, so the same peaks gave different images. The
grid was also off-centre unless that size was a whole number of pixels.
---
 xrd_simulator/detector.py | 54 ++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b520994..5a87332 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1213,32 +1213,28 @@ class Detector:
         first_zero_pixels = fwhm_pixels * AIRY_FWHM_TO_FIRST_ZERO
 
         sigma = self.gaussian_sigma
-        max_first_zero = first_zero_pixels.max()
         threshold = self.kernel_threshold / 2
-
-        # Calculate kernel radius - need to capture several Airy rings
-        # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
-        # for small crystallites (broad patterns)
-        # Use ~4 times the first zero to capture sufficient rings
-        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0))
-
-        # Ensure we also capture Gaussian tails (cap at 128 pixels)
         max_airy_radius = 128
-        while radius <= max_airy_radius:
-            g_val = torch.exp(-(radius**2) / (2 * sigma**2))
-            if g_val < threshold:
-                break
-            radius = radius * 2
-        if radius > max_airy_radius:
-            if self._verbose:
-                print(
-                    f"Airy kernel radius should be {radius.item()} but limited to {max_airy_radius}"
-                )
-            radius = torch.tensor(max_airy_radius)
 
-        ax = torch.arange(-radius, radius + 1, dtype=torch.float64)
-        yy, zz = torch.meshgrid(ax, ax, indexing="ij")
-        r = torch.sqrt(yy**2 + zz**2)
+        def kernel_radius(first_zero: float) -> float:
+            """Whole number of pixels to sample around the kernel centre.
+
+            Depends on the peak alone, and not on the batch it is rendered in,
+            since batches depend on how much memory happens to be free.
+            """
+            # Calculate kernel radius - need to capture several Airy rings
+            # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
+            # for small crystallites (broad patterns)
+            # Use ~4 times the first zero to capture sufficient rings
+            radius = max(np.ceil(4.0 * first_zero), 8.0)
+
+            # Ensure we also capture Gaussian tails (cap at 128 pixels)
+            while radius <= max_airy_radius:
+                g_val = np.exp(-(radius**2) / (2 * float(sigma) ** 2))
+                if g_val < threshold:
+                    break
+                radius = radius * 2
+            return radius
 
         kernels = []
         max_size = 0
@@ -1295,8 +1291,8 @@ class Detector:
             else:
                 return airy
 
-        r_np = r.cpu().numpy()
         sigma_np = float(sigma)
+        largest_radius = 0.0
 
         for first_zero in first_zero_pixels:
             first_zero_np = float(first_zero)
@@ -1305,6 +1301,11 @@ class Detector:
             if first_zero_np < 0.5:
                 kernel = self.gaussian_kernel
             else:
+                radius = kernel_radius(first_zero_np)
+                largest_radius = max(largest_radius, radius)
+                radius = min(radius, max_airy_radius)
+                ax = np.arange(-radius, radius + 1)
+                r_np = np.sqrt(ax[:, None] ** 2 + ax[None, :] ** 2)
                 kernel = ensure_torch(airy_profile(r_np, first_zero_np, sigma_np))
 
             kernel = kernel / kernel.sum()
@@ -1331,6 +1332,11 @@ class Detector:
             kernels.append(cropped.unsqueeze(0).unsqueeze(0))
             max_size = max(max_size, 2 * crop_r + 1)
 
+        if largest_radius > max_airy_radius and self._verbose:
+            print(
+                f"Airy kernel radius should be {largest_radius} but limited to {max_airy_radius}"
+            )
+
         # Pad all kernels to same size
         padded_kernels = []
         for k in kernels:
-- 
2.43.0


From 9f0a49480c4d8d057cf14ab666a9cff10c747892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 10/31] fix: a slow machine drops grains from macro images

The beam intersection gave its linear program 0.1 s of wall time and took
a timeout to mean that grain and beam do not overlap.
---
 xrd_simulator/beam.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 92395b9..9d41859 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -283,10 +283,8 @@ class Beam:
             b_ub=-halfspaces[:, -1],
             bounds=(None, None),
             method="highs",
-            options={
-                "maxiter": 5000,
-                "time_limit": 0.1,
-            },  # typical solve time is ~1-2 ms
+            # No time limit: on a busy machine it would drop grains at random.
+            options={"maxiter": 5000},  # typical solve time is ~1-2 ms
         )
         if res.success:
             if np.any(res.slack == 0):
-- 
2.43.0


From d5652ba027010b5bd0e65661cc1be1cf05a359ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 11/31] fix: macro rendering of grains at the detector edge
 fails or yields NaN

Sampled points projecting outside the detector were used as indices: an
IndexError, or a wrap to the opposite side. A hull missed by every pixel
ray was normalised by zero and its NaN spread over the frame.
---
 xrd_simulator/detector.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 5a87332..ac66214 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1637,12 +1637,22 @@ class Detector:
         scattered_vec = proj_context["scattered_wave_vector"]
         ray_direction = scattered_vec / torch.linalg.norm(scattered_vec)
 
+        clip_lengths = None
+        if n_pixels_in_box > 4:
+            # Get pixel coordinates and project on pixel centorid ray-lines
+            pixel_coords = self.pixel_coordinates[box[0] : box[1], box[2] : box[3], :]
+            ray_points = pixel_coords.reshape((box[1] - box[0]) * (box[3] - box[2]), 3)
+
+            clip_lengths = utils._clip_line_with_convex_polyhedron(
+                ray_points, ray_direction, plane_points, plane_normals
+            )
+
         if n_pixels_in_box == 1:
             # tetra is fully contained in a detector pixel, use the volume of the tetra as intensity
             return torch.ones(1, 1) * proj_context["convex_hull"].volume
-        elif (
-            n_pixels_in_box <= 4
-        ):  # tetra is small compared to the pixel size, adapt to sampling approach.
+        elif clip_lengths is None or clip_lengths.sum() <= 0:
+            # tetra is small compared to the pixel size, or so thin that it passes
+            # between the rays, adapt to sampling approach.
             # This is a decent approximation when the tetras are small in relation to the pixel size
             n_samples = (
                 7 * n_pixels_in_box
@@ -1662,26 +1672,25 @@ class Detector:
             zd = out[:, 0]
             yd = out[:, 1]
 
-            row_index = ensure_numpy(zd / self.pixel_size_z).astype(int) - box[0]
-            col_index = ensure_numpy(yd / self.pixel_size_y).astype(int) - box[2]
+            row_index = np.floor(ensure_numpy(zd / self.pixel_size_z)) - box[0]
+            col_index = np.floor(ensure_numpy(yd / self.pixel_size_y)) - box[2]
 
             box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
-            np.add.at(box_intensities, (row_index, col_index), clip_lengths)
-            box_intensities /= box_intensities.sum()
+            # At the detector edge a part of the hull may project outside the box.
+            inside = (row_index >= 0) & (row_index < box_intensities.shape[0])
+            inside &= (col_index >= 0) & (col_index < box_intensities.shape[1])
+            row_index = row_index[inside].astype(int)
+            col_index = col_index[inside].astype(int)
+            weights = ensure_numpy(clip_lengths)
+            np.add.at(box_intensities, (row_index, col_index), weights[inside])
+            if weights.sum() > 0:
+                box_intensities /= weights.sum()
             box_intensities *= proj_context["convex_hull"].volume
 
             return ensure_torch(box_intensities)
 
         else:
             # This is a good approximation when the tetras are large in relation to the pixel size
-            # Get pixel coordinates and project on pixel centorid ray-lines
-            pixel_coords = self.pixel_coordinates[box[0] : box[1], box[2] : box[3], :]
-            ray_points = pixel_coords.reshape((box[1] - box[0]) * (box[3] - box[2]), 3)
-
-            clip_lengths = utils._clip_line_with_convex_polyhedron(
-                ray_points, ray_direction, plane_points, plane_normals
-            )
-
             # ensure that scattering is proportional to the material volume
             # that is scattering.
             clip_lengths /= clip_lengths.sum()
-- 
2.43.0


From e23b2ca5fd29926249ab01c44b860bda105a3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 12/31] fix: macro peaks are brighter than micro and nano peaks
 by the pixel area

The projection of a hull already sums to its volume, but was taken for a
path length and multiplied by the pixel area, so that 'auto' images mix
intensities on different scales.
---
 xrd_simulator/detector.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index ac66214..14a3550 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1577,11 +1577,8 @@ class Detector:
                         # Note: Infinite intensity peaks should already be filtered out
                         # by peaks_detector_intersection. This check is defensive.
                         if torch.isfinite(intensity):
-                            projection_torch = ensure_torch(projection)
-                            # projection is path length, multiply by pixel area to get volume
-                            projected_volume = (
-                                projection_torch * self.pixel_size_z * self.pixel_size_y
-                            )
+                            # projection sums to the illuminated volume of the grain
+                            projected_volume = ensure_torch(projection)
                             # Multiply intensity per volume by projected volume
                             result = (intensity * projected_volume).to(render_dtype)
                             frames[box[0] : box[1], box[2] : box[3]] += result
-- 
2.43.0


From c6d48dc38c32721b1ea47e8fb31dff5a04bbfe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 13/31] fix: a failed or interrupted save destroys the previous
 file

save of beam, detector, motion and polycrystal truncated the target and
wrote it in place: a full disk, an error or a crash midway lost both the
old and the new object, and a concurrent load could read half a file.
Write to a temporary file and move it in place once complete.
---
 xrd_simulator/beam.py        |  3 ++-
 xrd_simulator/detector.py    |  2 +-
 xrd_simulator/motion.py      |  3 ++-
 xrd_simulator/polycrystal.py |  2 +-
 xrd_simulator/utils.py       | 38 ++++++++++++++++++++++++++++++++++++
 5 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 9d41859..52d10fc 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -24,6 +24,7 @@ from scipy.optimize import linprog
 from scipy.spatial import ConvexHull, HalfspaceIntersection
 
 torch.set_default_dtype(torch.float64)
+from xrd_simulator import utils
 from xrd_simulator.utils import ensure_numpy, ensure_torch
 
 
@@ -208,7 +209,7 @@ class Beam:
         """
         if not path.endswith(".beam"):
             path = path + ".beam"
-        with open(path, "wb") as f:
+        with utils._atomic_write(path) as f:
             dill.dump(
                 {
                     "wave_vector": ensure_numpy(self.wave_vector),
diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 14a3550..24d68d5 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -187,7 +187,7 @@ class Detector:
         """
         if not path.endswith(".det"):
             path = path + ".det"
-        with open(path, "wb") as f:
+        with utils._atomic_write(path) as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
 
     @classmethod
diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e7c639..2464813 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -19,6 +19,7 @@ and functions.
 
 import dill
 import torch
+from xrd_simulator import utils
 from xrd_simulator.utils import ensure_torch
 
 torch.set_default_dtype(torch.float64)
@@ -227,7 +228,7 @@ class RigidBodyMotion:
         """
         if not path.endswith(".motion"):
             path = path + ".motion"
-        with open(path, "wb") as f:
+        with utils._atomic_write(path) as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
 
     @classmethod
diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index bd533bb..d2b3881 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -469,7 +469,7 @@ class Polycrystal:
         else:
             pickle_path = path
             xdmf_path = path[: -len(".pc")] + ".xdmf"
-        with open(pickle_path, "wb") as f:
+        with utils._atomic_write(pickle_path) as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
             element_data = {}
diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index b01fd11..e0e738c 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -72,8 +72,12 @@ _circumsphere_of_tetrahedrons
 
 from __future__ import annotations
 
+import contextlib
 import gc
 import logging
+import os
+import shutil
+import uuid
 from typing import Dict, List
 
 import numpy as np
@@ -92,6 +96,40 @@ def _cif_open(cif_file):
     return cif_dict[list(cif_dict.keys())[0]]
 
 
+@contextlib.contextmanager
+def _atomic_write(path):
+    """Open a file for writing that appears at ``path`` only once complete.
+
+    The data goes to a temporary file in the same directory, which replaces
+    ``path`` when everything is written. If writing fails, or the process ends
+    midway, an existing file at ``path`` keeps its content.
+
+    Parameters
+    ----------
+    path : str
+        Path of the file to write.
+
+    Yields
+    ------
+    file
+        Binary file object to write to.
+    """
+    path = os.path.realpath(path)
+    temporary = os.path.join(os.path.dirname(path), f".{uuid.uuid4().hex}.tmp")
+    try:
+        with open(temporary, "xb") as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        with contextlib.suppress(OSError):
+            shutil.copymode(path, temporary)
+        os.replace(temporary, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temporary)
+        raise
+
+
 def _print_progress(progress_fraction, message):
     """Print a progress bar in the executing shell terminal.
 
-- 
2.43.0


From f759cd9c51e505540fbcc52dd78f37bcb16b8d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 14/31] fix: TetraMesh.save changes the element_data of the
 caller

Saving twice with the same dictionary failed.
---
 xrd_simulator/mesh.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index f1793f4..b10caab 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -295,19 +295,21 @@ class TetraMesh(object):
         else:
             save_path = file
 
+        cell_data = None
         if element_data is not None:
+            cell_data = {}
             for key in element_data:
                 if torch.is_tensor(element_data[key]):
-                    element_data[key] = [list(utils.ensure_numpy(element_data[key]))]
+                    cell_data[key] = [list(utils.ensure_numpy(element_data[key]))]
                 else:
-                    element_data[key] = [list(element_data[key])]
-        
+                    cell_data[key] = [list(element_data[key])]
+
         # Convert coord and enod to numpy if they're torch tensors
         coord = utils.ensure_numpy(self.coord) if torch.is_tensor(self.coord) else self.coord
         enod = utils.ensure_numpy(self.enod) if torch.is_tensor(self.enod) else self.enod
 
         meshio.write_points_cells(
-            save_path, coord, [("tetra", enod)], cell_data=element_data
+            save_path, coord, [("tetra", enod)], cell_data=cell_data
         )
 
     @classmethod
-- 
2.43.0


From 847d23b1303c027e0b1dd2e3e4786e6752640a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 15/31] fix: a failed TetraMesh.save destroys the mesh saved
 there before

The .xdmf and .h5 files were truncated and written in place, and errors on
closing the .h5 file were lost.
---
 xrd_simulator/mesh.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index b10caab..6ed2996 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -19,10 +19,14 @@ Below follows a detailed description of the mesh class attributes and
 functions.
 """
 
+import os
+import tempfile
+
 import numpy as np
 import meshpy.tet as tet
 import meshio
 import torch
+from meshio.xdmf.main import XdmfWriter
 from xrd_simulator import utils, motion
 
 
@@ -308,9 +312,20 @@ class TetraMesh(object):
         coord = utils.ensure_numpy(self.coord) if torch.is_tensor(self.coord) else self.coord
         enod = utils.ensure_numpy(self.enod) if torch.is_tensor(self.enod) else self.enod
 
-        meshio.write_points_cells(
-            save_path, coord, [("tetra", enod)], cell_data=cell_data
-        )
+        # Write both files (.h5 and .xdmf) aside and move them in place once they are
+        # complete, so that a failed save does not cost a mesh saved there before.
+        mesh = meshio.Mesh(coord, [("tetra", enod)], cell_data=cell_data)
+        directory, name = os.path.split(os.path.abspath(save_path))
+        with tempfile.TemporaryDirectory(prefix=".mesh", dir=directory) as temporary:
+            writer = XdmfWriter(os.path.join(temporary, name), mesh)
+            # Left to garbage collection, errors on closing the file would be lost.
+            writer.h5_file.close()
+            files = sorted(os.listdir(temporary))  # .h5 comes before .xdmf
+            for file in files:
+                with open(os.path.join(temporary, file), "rb") as f:
+                    os.fsync(f.fileno())
+            for file in files:
+                os.replace(os.path.join(temporary, file), os.path.join(directory, file))
 
     @classmethod
     def load(cls, path):
-- 
2.43.0


From ff8b421aa719c2707f3b38fb5c946459d95a2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 16/31] fix: samples, detectors and motions share memory with
 the arrays passed in

Reusing or changing an input array afterwards silently changed the object
(torch.from_numpy and Tensor.to do not copy), and all motions made without
an origin shared one origin tensor.
---
 xrd_simulator/detector.py    |  6 +++---
 xrd_simulator/motion.py      | 10 +++++-----
 xrd_simulator/polycrystal.py |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 24d68d5..1a13054 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -135,9 +135,9 @@ class Detector:
         use_polarization: bool = True,
         use_structure_factor: bool = True,
     ):
-        self.det_corner_0 = ensure_torch(det_corner_0)
-        self.det_corner_1 = ensure_torch(det_corner_1)
-        self.det_corner_2 = ensure_torch(det_corner_2)
+        self.det_corner_0 = ensure_torch(det_corner_0).clone()
+        self.det_corner_1 = ensure_torch(det_corner_1).clone()
+        self.det_corner_2 = ensure_torch(det_corner_2).clone()
 
         self.zmax = torch.linalg.norm(self.det_corner_2 - self.det_corner_0)
         self.ymax = torch.linalg.norm(self.det_corner_1 - self.det_corner_0)
diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 2464813..935138a 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -71,10 +71,10 @@ class RigidBodyMotion:
             rotation_angle < torch.pi and rotation_angle > 0
         ), "The rotation angle must be in [0 pi]"
         self.rotator = _RodriguezRotator(rotation_axis)
-        self.rotation_axis = ensure_torch(rotation_axis)
-        self.rotation_angle = ensure_torch(rotation_angle)
-        self.translation = ensure_torch(translation)
-        self.origin = ensure_torch(origin)
+        self.rotation_axis = ensure_torch(rotation_axis).clone()
+        self.rotation_angle = ensure_torch(rotation_angle).clone()
+        self.translation = ensure_torch(translation).clone()
+        self.origin = ensure_torch(origin).clone()
 
     def __call__(self, vectors, time):
         """Find the transformation of a set of points at a prescribed time.
@@ -282,7 +282,7 @@ class _RodriguezRotator(object):
     """
 
     def __init__(self, rotation_axis):
-        rotation_axis = ensure_torch(rotation_axis)
+        rotation_axis = ensure_torch(rotation_axis).clone()
         assert torch.allclose(
             torch.linalg.norm(rotation_axis), ensure_torch(1.0)
         ), "The rotation axis must be length unity."
diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index d2b3881..448595c 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -577,7 +577,7 @@ class Polycrystal:
                 dim=0,
             )
         elif orientation.shape == (mesh.number_of_elements, 3, 3):
-            orientation_lab = ensure_torch(orientation)
+            orientation_lab = ensure_torch(orientation).clone()
         else:
             raise ValueError("orientation input is of incompatible shape")
         return orientation_lab
@@ -603,7 +603,7 @@ class Polycrystal:
         if strain.shape == (3, 3):
             strain_lab = strain.unsqueeze(0).repeat(mesh.number_of_elements, 1, 1)
         elif strain.shape == (mesh.number_of_elements, 3, 3):
-            strain_lab = strain  # Fixed: was np.copy(strain) which returned numpy array
+            strain_lab = strain.clone()
         else:
             raise ValueError("strain input is of incompatible shape")
         return strain_lab
@@ -637,7 +637,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map).clone()
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 28401a5682bd6189cc023493eaf73713669f6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 17/31] fix: loading a beam changes the last digits of its wave
 vector

---
 xrd_simulator/beam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 52d10fc..3ab58df 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -258,6 +258,9 @@ class Beam:
                 data["wavelength"],
                 ensure_torch(data["polarization_vector"]),
             )
+            # The constructor normalises vectors again, which changes their last digits.
+            loaded.wave_vector = ensure_torch(data["wave_vector"])
+            loaded.polarization_vector = ensure_torch(data["polarization_vector"])
             loaded.halfspaces = ensure_torch(data["halfspaces"])
             return loaded
 
-- 
2.43.0


From 3accf30928c4bd3db54fcd884e87cd7d2e98a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 18/31] fix: TetraMesh.save succeeds although its data could
 not be written

---
 xrd_simulator/mesh.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 6ed2996..fb70e27 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -320,6 +320,7 @@ class TetraMesh(object):
             writer = XdmfWriter(os.path.join(temporary, name), mesh)
             # Left to garbage collection, errors on closing the file would be lost.
             writer.h5_file.close()
+            self._verify_saved(os.path.join(temporary, name), mesh)
             files = sorted(os.listdir(temporary))  # .h5 comes before .xdmf
             for file in files:
                 with open(os.path.join(temporary, file), "rb") as f:
@@ -327,6 +328,30 @@ class TetraMesh(object):
             for file in files:
                 os.replace(os.path.join(temporary, file), os.path.join(directory, file))
 
+    @staticmethod
+    def _verify_saved(path, mesh):
+        """Raise an error if the file does not hold the mesh.
+
+        HDF5 ignores errors that occur when a data set is closed, such as a full disk.
+
+        Parameters
+        ----------
+        path : str
+            Path of the ``.xdmf`` file.
+        mesh : meshio.Mesh
+            The mesh that was written to it.
+        """
+        saved = meshio.xdmf.read(path)
+        pairs = [(saved.points, mesh.points)]
+        pairs += zip(saved.cells_dict.values(), mesh.cells_dict.values())
+        pairs += [(saved.cell_data[key], mesh.cell_data[key]) for key in mesh.cell_data]
+        for written, wanted in pairs:
+            # assert_array_equal takes nan for equal
+            try:
+                np.testing.assert_array_equal(np.ravel(written), np.ravel(wanted))
+            except AssertionError:
+                raise OSError("Writing " + path + " failed") from None
+
     @classmethod
     def load(cls, path):
         """Load a mesh from a saved mesh file using `the meshio package`_.
-- 
2.43.0


From 7fb323ecf133a75fc19aa871e817a3fdb1f13262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 19/31] fix: samples of several phases cannot diffract since
 planes are passed as an argument

---
 xrd_simulator/polycrystal.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 448595c..20218ad 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -157,14 +157,16 @@ class Polycrystal:
                 detector, beam, min_bragg_angle, max_bragg_angle
             )
 
-        planes = [
+        diffracting_planes = [
             phase._setup_diffracting_planes(
                 beam.wavelength, min_bragg_angle, max_bragg_angle
             )
             for phase in self.phases
         ]
 
-        peaks = self._compute_peaks(beam, rigid_body_motion, planes, verbose=verbose)
+        peaks = self._compute_peaks(
+            beam, rigid_body_motion, diffracting_planes, verbose=verbose
+        )
 
         # Filter peaks by beam illumination using source positions
         source_points = peaks[:, 16:19].T  # Get source points (x,y,z) and transpose for contains method
@@ -234,7 +236,9 @@ class Polycrystal:
 
         return peaks_dict
 
-    def _compute_peaks(self, beam, rigid_body_motion, planes, verbose=True):
+    def _compute_peaks(
+        self, beam, rigid_body_motion, diffracting_planes, verbose=True
+    ):
         """Compute diffraction for the polycrystal.
 
         Parameters
@@ -243,7 +247,7 @@ class Polycrystal:
             Object representing the incident X-ray beam.
         rigid_body_motion : RigidBodyMotion
             Object describing the polycrystal's transformation.
-        planes : list of tuple
+        diffracting_planes : list of tuple
             Miller indices and structure factors of each phase.
         verbose : bool, optional
             If ``True``, print progress messages. Default is ``True``.
@@ -292,7 +296,7 @@ class Polycrystal:
 
             # Get all scatterers belonging to one phase at a time, and the corresponding miller indices.
             grain_indices = torch.where(element_phase_map == i)[0]
-            miller_indices, structure_factors = planes[i]
+            miller_indices, structure_factors = diffracting_planes[i]
             miller_indices = ensure_torch(miller_indices)
             # # Retrieve the structure factors of the miller indices for this phase, exclude the miller incides with zero structure factor
             if structure_factors is not None:
-- 
2.43.0


From 15a27b2cea27940d8f401ddc1f0c39ddd7155af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 20/31] fix: samples share the list of phases and phases the
 unit cell with the caller

---
 xrd_simulator/phase.py       | 4 +++-
 xrd_simulator/polycrystal.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index 0175e99..12a5d00 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -20,6 +20,8 @@ functions.
 .. _The .cif file used in the above example can be found here.: https://github.com/FABLE-3DXRD/xrd_simulator/blob/main/docs/source/examples/quartz.cif?raw=true
 """
 import numpy as np
+import copy
+
 from xfab import tools, structure
 from xrd_simulator import utils
 
@@ -66,7 +68,7 @@ class Phase(object):
     """
 
     def __init__(self, unit_cell, sgname, path_to_cif_file=None):
-        self.unit_cell = unit_cell
+        self.unit_cell = copy.copy(unit_cell)  # not shared with the caller
         self.sgname = sgname
         self.miller_indices = None
         self.structure_factors = None
diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 20218ad..3e5630a 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -637,6 +637,7 @@ class Polycrystal:
         """
         if not isinstance(phases, list):
             phases = [phases]
+        phases = list(phases)  # not shared with the caller
         if element_phase_map is None:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
-- 
2.43.0


From 0e0b84b7c6ee21510abe143c8827814c1a340d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 21/31] fix: volume rendering fails on grains that the beam
 cuts at a corner

The solver's point may lie on fewer than three faces, and the step away from
them was then singular. Take the centre of the largest inscribed sphere.
---
 xrd_simulator/beam.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 3ab58df..ad41cca 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -281,30 +281,22 @@ class Beam:
             Interior point if found, otherwise ``None``.
         """
         halfspaces = ensure_numpy(halfspaces)
+        # The centre of the largest inscribed sphere is as far inside as possible.
+        norms = np.linalg.norm(halfspaces[:, :-1], axis=1, keepdims=True)
         res = linprog(
-            c=np.zeros((3,)),
-            A_ub=halfspaces[:, :-1],
+            c=[0, 0, 0, -1],
+            A_ub=np.hstack((halfspaces[:, :-1], norms)),
             b_ub=-halfspaces[:, -1],
-            bounds=(None, None),
+            bounds=[(None, None)] * 3 + [(0, None)],
             method="highs",
             # No time limit: on a busy machine it would drop grains at random.
             options={"maxiter": 5000},  # typical solve time is ~1-2 ms
         )
         if res.success:
-            if np.any(res.slack == 0):
-                A = halfspaces[res.slack == 0, :-1]
-                dx = np.linalg.solve(
-                    A.T.dot(A), A.T.dot(-np.ones((A.shape[0],)) * 1e-5)
-                )
-                trial = res.x + dx
-            else:
-                trial = res.x
+            trial = res.x[:3]
             if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):
                 return trial
-            else:
-                return None
-        else:
-            return None
+        return None
 
     def _get_candidate_spheres(
         self,
-- 
2.43.0


From 5e3781f4f4057c7282da235993942547c0624eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 22/31] fix: lattice planes of oblique unit cells are missing

xfab's genhkl_all ends a row of planes at the first one beyond the limit, which
in triclinic and monoclinic cells loses planes within it.
---
 xrd_simulator/phase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index 12a5d00..c3d6636 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -109,8 +109,14 @@ class Phase(object):
         """
         sintlmin = np.sin(min_bragg_angle) / wavelength
         sintlmax = np.sin(max_bragg_angle) / wavelength
+        # genhkl_all gives up a row of planes at the first one beyond the limit. In an
+        # oblique cell others that follow may be within it, by no more than this factor.
+        B = tools.form_b_mat(self.unit_cell)
+        oblique = np.prod(np.linalg.norm(B, axis=0)) / abs(np.linalg.det(B))
         miller_indices = tools.genhkl_all(
-            self.unit_cell, sintlmin, sintlmax, sgname=self.sgname)
+            self.unit_cell, sintlmin, sintlmax * oblique, sgname=self.sgname,
+            output_stl=True)
+        miller_indices = miller_indices[miller_indices[:, 3] <= sintlmax, :3]
         structure_factors = self.structure_factors
         if self.path_to_cif_file is not None:
             structure_factors = self._compute_structure_factors(miller_indices)
-- 
2.43.0


From 3cba0cc4e5e7e16dc23580652d98d639fc64379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 23/31] fix: a diffraction result shares arrays with the
 sample, beam and motion

Editing the nodes of the lab mesh, the wave vector or the rotation axis in
place changed results computed before.
---
 xrd_simulator/polycrystal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 3e5630a..5707583 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -223,12 +223,12 @@ class Polycrystal:
         peaks_dict = {
             "peaks": peaks,
             "columns": column_names,
-            "incident_vector": beam.wave_vector,
+            "incident_vector": beam.wave_vector.clone(),
             "wavelength": beam.wavelength,
-            "rotation_axis": rigid_body_motion.rotation_axis,
+            "rotation_axis": rigid_body_motion.rotation_axis.clone(),
             # Store mesh and motion data for on-demand hull computation. These are
             # copies: the sample, motion and beam may change before rendering.
-            "mesh_lab": copy.copy(self.mesh_lab),
+            "mesh_lab": copy.deepcopy(self.mesh_lab),
             "rigid_body_motion": copy.deepcopy(rigid_body_motion),
             "beam": copy.deepcopy(beam),
             "verbose": verbose,
-- 
2.43.0


From 1c9717d579ba58d6edf4cfd4dfe8d3fc834741a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 24/31] fix: automatic rendering draws grains between
 overlapping limits twice

With pixels smaller than 0.1 microns the default macro limit is below the
micro limit, and grains between them were rendered by two methods.
---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 1a13054..7279ba6 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -339,7 +339,8 @@ class Detector:
             if macro_grain_limit is None:
                 macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3
             large_grains_mask = peaks[:, 21] >= macro_grain_limit
-            small_grains_mask = peaks[:, 21] < micro_grain_limit
+            # The limits may overlap, for very small pixels they do so by default.
+            small_grains_mask = (peaks[:, 21] < micro_grain_limit) & ~large_grains_mask
             medium_grains_mask = (~large_grains_mask) & (~small_grains_mask)
 
             diffraction_frames = torch.zeros(
-- 
2.43.0


From 9112678f05d2565f061848df465fa35d4e4619bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 25/31] fix: rounding adds or loses rows and columns of pixels

A detector of n pixels could get n + 1, and volume rendering could leave out
the last row or column.
---
 xrd_simulator/detector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 7279ba6..3adc1fb 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -414,8 +414,11 @@ class Detector:
         # Get device from det_corner_0 to ensure all tensors are on same device
         dev = self.det_corner_0.device
 
-        zds = torch.arange(0, self.zmax, self.pixel_size_z, device=dev)
-        yds = torch.arange(0, self.ymax, self.pixel_size_y, device=dev)
+        # Rounding errors of the sizes must not add a row or column of pixels.
+        n_z = max(int(torch.ceil(self.zmax / self.pixel_size_z - 1e-6)), 1)
+        n_y = max(int(torch.ceil(self.ymax / self.pixel_size_y - 1e-6)), 1)
+        zds = torch.arange(n_z, device=dev) * self.pixel_size_z
+        yds = torch.arange(n_y, device=dev) * self.pixel_size_y
         Z, Y = torch.meshgrid(zds, yds, indexing="ij")
         Zds = torch.zeros((len(zds), len(yds), 3), device=dev)
         Yds = torch.zeros((len(zds), len(yds), 3), device=dev)
@@ -588,8 +591,8 @@ class Detector:
             max_zd, max_yd
         )
 
-        max_row_indx = min(max_row_indx + 1, int(zmax / self.pixel_size_z))
-        max_col_indx = min(max_col_indx + 1, int(ymax / self.pixel_size_y))
+        max_row_indx = min(max_row_indx + 1, self.pixel_coordinates.shape[0])
+        max_col_indx = min(max_col_indx + 1, self.pixel_coordinates.shape[1])
 
         return min_row_indx, max_row_indx, min_col_indx, max_col_indx
 
-- 
2.43.0


From bdf28f4bebd6b2278f85d149b6fedc48e9685713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 26/31] fix: nano rendering fails on peaks that hit the
 detector head on

Rounding took the cosine of the incident angle out of its domain.
---
 xrd_simulator/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 3adc1fb..726ca7e 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -467,7 +467,7 @@ class Detector:
 
         ray_dir_norm = ray_direction / torch.norm(ray_direction, dim=1).unsqueeze(-1)
         normal_norm = self.normal / torch.linalg.norm(self.normal)
-        cosine_theta = torch.matmul(ray_dir_norm, -normal_norm)
+        cosine_theta = torch.matmul(ray_dir_norm, -normal_norm).clamp(-1, 1)
         incident_angle_deg = torch.arccos(cosine_theta) * (180 / torch.pi)
         return torch.stack((zd, yd, incident_angle_deg), dim=1)
 
-- 
2.43.0


From e0480b05137f01407236a3582956200510194cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 27/31] fix: texture and strain functions get tensors that are
 part of the mesh

They are documented to get numpy arrays: products of x with an array raised,
and a function that changed x moved the element's centroid.
---
 xrd_simulator/templates.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/templates.py b/xrd_simulator/templates.py
index d5d5e9b..3d3c123 100644
--- a/xrd_simulator/templates.py
+++ b/xrd_simulator/templates.py
@@ -241,16 +241,21 @@ def polycrystal_from_odf(
     phases = [Phase(unit_cell, sgname, path_to_cif_file)]
     element_phase_map = np.zeros((mesh.number_of_elements,)).astype(int)
 
+    # The functions of the caller are promised numpy arrays, and must not reach the mesh
+    centroids = utils.ensure_numpy(mesh.ecentroids).copy()
+
     # Sample spatial texture
     orientation = _sample_ODF(
-        orientation_density_function, maximum_sampling_bin_seperation, mesh.ecentroids
+        orientation_density_function,
+        maximum_sampling_bin_seperation,
+        centroids.copy(),
     )
 
     # Sample spatial strain
     strain_lab = np.zeros((mesh.number_of_elements, 3, 3))
     for ei in range(mesh.number_of_elements):
         # strain in lab/sample-coordinates
-        strain_lab[ei] = strain_tensor(mesh.ecentroids[ei])
+        strain_lab[ei] = strain_tensor(centroids[ei])
 
     return Polycrystal(
         mesh,
-- 
2.43.0


From 84daa6f2c7f7310a2581300c3c2f0607d82e388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 28/31] fix: an interrupted device selection leaves torch on
 another device

---
 xrd_simulator/cuda.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/cuda.py b/xrd_simulator/cuda.py
index 6956209..bd3c20b 100644
--- a/xrd_simulator/cuda.py
+++ b/xrd_simulator/cuda.py
@@ -56,7 +56,12 @@ def configure_device(device=None, verbose=True):
     selected = "cuda" if gpu_available else "cpu"
 
     # Record the selection only once torch has accepted it
-    torch.set_default_device(selected)
+    try:
+        torch.set_default_device(selected)
+    except BaseException:
+        # torch drops the old default device before it sets the new one
+        torch.set_default_device(_device)
+        raise
     _device = selected
 
     if verbose:
-- 
2.43.0


From 32d74996d3f6fd7a1077dbec6403efa284d41fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:54 +0000
Subject: [PATCH 29/31] fix: reflections of aligned crystals are lost or
 recorded twice

The equation for the rotation angles is linear when its leading coefficient is zero:
its only solution was dropped. A double solution was recorded as two peaks.
---
 xrd_simulator/laue.py | 43 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 9881447..3ca92a3 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -97,41 +97,24 @@ def _find_solutions_to_tangens_half_angle_equation(
     # Compute rho_0 and rho_2
     rho_0 = torch.matmul(rho_0_factor, G_0)
     rho_2 = torch.matmul(rho_2_factor, G_0) + torch.sum(G_0**2, axis=1) / 2.0
-    denominator = rho_2 - rho_0
-    numerator = rho_2 + rho_0
+    # Coefficients of the quadratic equation a * s^2 + 2 * b * s + c = 0
+    a = rho_2 - rho_0
+    c = rho_2 + rho_0
+    del rho_0, rho_2
+    b = torch.matmul(rho_1_factor, G_0)
 
-    del rho_2
-    #Remove 0 denominators
-    denominator[denominator==0] = torch.nan
-
-    # Calculate coefficients for quadratic equation
-    a = torch.divide(
-        torch.matmul(rho_1_factor, G_0),
-        denominator,
-        out=torch.full_like(rho_0, torch.nan)
-    )
-
-    b = torch.divide(
-        numerator, denominator, out=torch.full_like(rho_0, torch.nan)
-    )
-
-    # Clean up unnecessary variables
-
-    del denominator, numerator, rho_0
-
-    # Calculate discriminant
-
-    discriminant = a**2 - b
-    del b
+    discriminant = b**2 - a * c
 
     # Handle cases where discriminant is negative
     discriminant[discriminant<0] = torch.nan
-    # discriminant[discriminant>10] = torch.nan 
 
-    # Calculate solutions for s
-    s1 = -a + torch.sqrt(discriminant)
-    s2 = -a - torch.sqrt(discriminant)
-    del a, discriminant
+    # Calculate solutions for s. This form does not subtract numbers of the same
+    # size, and it keeps the only solution of a linear equation (a = 0).
+    q = -(b + torch.copysign(torch.sqrt(discriminant), b))
+    s1 = q / a
+    s2 = c / q
+    s2[discriminant==0] = torch.nan # a double solution is one solution
+    del a, b, c, q, discriminant
     t1 = 2 * torch.arctan(s1) / delta_omega
     del s1
     indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 <= 1))
-- 
2.43.0


From c183db88a39af9c9fc2f3895ac087a0310ca2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:54 +0000
Subject: [PATCH 30/31] fix: diffraction fails on grains whose centre lies on a
 face of the beam

A trial point on the surface of the intersection is not an interior point to qhull.
---
 xrd_simulator/beam.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index ad41cca..6f1b893 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -175,20 +175,20 @@ class Beam:
         # centroid is contained by the beam, being a potential cheaply computed interior_point.
 
         centroid = torch.mean(vertices, axis=0)
-        if self._contains(centroid):
-            interior_point = centroid
+        trial_points = centroid + (vertices - centroid) * 0.99
+        # A point at the surface of the intersection is not an interior point to qhull.
+        margin = 1e-4 * torch.max(torch.linalg.norm(vertices - centroid, dim=1)).item()
+
+        for trial_point in torch.vstack((centroid, trial_points)):
+            distances = combined_halfspaces[:, :3].dot(ensure_numpy(trial_point))
+            if np.all(distances + combined_halfspaces[:, 3] < -margin):
+                interior_point = trial_point
+                break
         else:
-            trial_points = centroid + (vertices - centroid) * 0.99
-
-            for i, is_contained in enumerate(self._contains(trial_points.T)):
-                if is_contained:
-                    interior_point = trial_points[i, :].flatten()
-                    break
-            else:
-                interior_point = self._find_feasible_point(combined_halfspaces)
-                interior_point = (
-                    ensure_torch(interior_point) if interior_point is not None else None
-                )
+            interior_point = self._find_feasible_point(combined_halfspaces)
+            interior_point = (
+                ensure_torch(interior_point) if interior_point is not None else None
+            )
 
         if interior_point is not None:
             hs = HalfspaceIntersection(
-- 
2.43.0


From 782e6e997143dbfa417bc0d54134772f6ab9b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:54 +0000
Subject: [PATCH 31/31] fix: angles next to 0 and 180 degrees are not numbers

Rounding takes cosines out of [-1, 1].
---
 xrd_simulator/detector.py           | 4 +++-
 xrd_simulator/polycrystal.py        | 2 +-
 xrd_simulator/scattering_factors.py | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 726ca7e..6490230 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -507,7 +507,9 @@ class Detector:
             geom_mat[:, i] = det_corner - source_point
         normalised_local_coord_geom_mat = geom_mat / torch.linalg.norm(geom_mat, axis=0)
         cone_opening = torch.arccos(
-            torch.matmul(normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k))
+            torch.matmul(
+                normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k)
+            ).clamp(-1, 1)
         )
         return torch.max(cone_opening) / 2.0
 
diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 5707583..5aef860 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -377,7 +377,7 @@ class Polycrystal:
         # Calculate 2theta (scattering angle)
         k_in = beam.wave_vector / torch.linalg.norm(beam.wave_vector)
         k_out = K_out_xyz / torch.linalg.norm(K_out_xyz, dim=1, keepdim=True)
-        two_theta = torch.arccos(torch.sum(k_in * k_out, dim=1))
+        two_theta = torch.arccos(torch.sum(k_in * k_out, dim=1).clamp(-1, 1))
         scherrer_fwhm = _scherrer(volumes, two_theta, beam.wavelength)
 
         peaks = torch.cat(
diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index ecfd6e5..268657c 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -46,12 +46,14 @@ def _lorentz(
     # Normalize k for dot product calculation
     k_norm_sq = torch.linalg.norm(k_in) ** 2
     k_kp_norm = torch.matmul(k_in, kp.T) / k_norm_sq
-    theta = torch.arccos(k_kp_norm) / 2.0
+    theta = torch.arccos(k_kp_norm.clamp(-1, 1)) / 2.0
 
     # Calculate korthogonal same way as in old version
     korthogonal = kp - k_in.reshape(1, 3) * (k_kp_norm.reshape(-1, 1))
     korth_norm = torch.linalg.norm(korthogonal, dim=1)
-    eta = torch.arccos(torch.matmul(rot_axis, korthogonal.T) / korth_norm)
+    eta = torch.arccos(
+        (torch.matmul(rot_axis, korthogonal.T) / korth_norm).clamp(-1, 1)
+    )
 
     # Apply tolerance conditions
     tol = 0.5
@@ -59,6 +61,7 @@ def _lorentz(
         (torch.abs(torch.rad2deg(eta)) < tol)
         | (torch.abs(torch.rad2deg(eta)) > 180 - tol)
         | (torch.rad2deg(theta) < tol)
+        | (korth_norm == 0)
     )
 
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
-- 
2.43.0

