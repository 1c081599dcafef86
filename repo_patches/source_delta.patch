From 17359f4fa8fd6960ba7d9d381528406ccb36cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 01/27] fix: store scalar matrix elements in the polar cap
 Slepian matrix

numpy no longer converts a one element array on assignment, hence every
worker raised and the Slepian matrix was left as zeros.
---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 3ab37823cabc222dbb2a2cf58c79b5c8ca87d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 02/27] fix: raise worker failures when computing the Slepian
 matrices

The results of the executor were never consumed, hence an exception in a
worker was discarded and an incomplete matrix was solved and saved. Also
release the shared memory when a worker fails.
---
 src/sleplet/meshes/mesh_slepian.py       | 22 ++++++++++++----------
 src/sleplet/slepian/slepian_arbitrary.py | 22 ++++++++++++----------
 src/sleplet/slepian/slepian_polar_cap.py | 22 ++++++++++++----------
 3 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 10765fb..6fcfb94 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -128,16 +128,18 @@ class MeshSlepian:
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        D = D_ext.copy()
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
+        try:
+            # initialise pool and apply function
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                # consume the results such that a failure in a worker is raised
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            D = D_ext.copy()
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
         return D
 
     def _fill_D_elements(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..d684d6a 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -145,16 +145,18 @@ class SlepianArbitrary(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        D = D_r_ext + 1j * D_i_ext
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_r_ext, shm_i_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_r_ext, shm_i_ext)
+        try:
+            # initialise pool and apply function
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                # consume the results such that a failure in a worker is raised
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            D = D_r_ext + 1j * D_i_ext
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_r_ext, shm_i_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_r_ext, shm_i_ext)
         return D
 
     def _matrix_helper(
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..3f6267b 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -217,16 +217,18 @@ class SlepianPolarCap(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        Dm = Dm_ext * (-1) ** m / 2
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
+        try:
+            # initialise pool and apply function
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                # consume the results such that a failure in a worker is raised
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            Dm = Dm_ext * (-1) ** m / 2
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
         return Dm
 
     def _create_legendre_polynomials_table(
-- 
2.43.0


From 40486ebf5c1120b873db58d0b1d01454ace6114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 03/27] fix: declare the cached fields of the arbitrary Slepian
 region

Assigning an undeclared attribute is rejected by pydantic, hence the
class could not be constructed without saved eigensolutions.
---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index d684d6a..6f60303 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -36,6 +36,11 @@ class SlepianArbitrary(SlepianFunctions):
 
     mask_name: str
     """The name of the mask of the arbitrary region."""
+    _fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
     _weight: npt.NDArray[np.float64] = pydantic.Field(
         default_factory=lambda: np.empty(0),
         init_var=False,
@@ -107,7 +112,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From aebf8d3e766168a99d7115df906782029a526768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 04/27] fix: use the local files when the registry cannot be
 loaded

The first lookup raised and left an empty registry behind, such that all
further lookups in the same process succeeded.
---
 src/sleplet/_data/setup_pooch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 4b2bd7c..f6d9929 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -42,13 +42,17 @@ def _lazy_load_registry(
         """
         global _POOCH  # noqa: PLW0603
         if _POOCH is None:
-            _POOCH = pooch.create(
+            registry = pooch.create(
                 path=pooch.os_cache("sleplet"),
                 base_url=f"doi:{_ZENODO_DATA_DOI}/",
                 registry=None,
                 retry_if_failed=_POOCH_RETRY,
             )
-            _POOCH.load_registry_from_doi()
+            try:
+                registry.load_registry_from_doi()
+            except (OSError, ValueError):
+                _logger.warning("failed to load the registry, using local files only")
+            _POOCH = registry
         return func(*args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 9ded761d650869d6372c1fcfe5fbbd422bec8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 05/27] fix: solve for a given order when the saved
 eigenvectors are truncated

---
 src/sleplet/slepian/slepian_polar_cap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3f6267b..42da50d 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -101,6 +101,9 @@ class SlepianPolarCap(SlepianFunctions):
         orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
 
         if self.order is not None:
+            if len(eigenvectors) < len(orders):
+                # only the eigenvectors up to the Shannon number have been saved
+                return self._solve_eigenproblem_order(self.order)
             idx = np.where(orders == self.order)
             return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
-- 
2.43.0


From fdab3a74eca74468bde396b4f4b2927b289cd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 06/27] fix: identity function is not real on the sphere

The coefficients do not satisfy the reality condition.
---
 src/sleplet/functions/identity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/identity.py b/src/sleplet/functions/identity.py
index d930104..55366cc 100644
--- a/src/sleplet/functions/identity.py
+++ b/src/sleplet/functions/identity.py
@@ -28,7 +28,7 @@ class Identity(Flm):
         )
 
     def _set_reality(self: typing_extensions.Self) -> bool:
-        return True
+        return False
 
     def _set_spin(self: typing_extensions.Self) -> int:
         return 0
-- 
2.43.0


From cd0a62b7c402369b30dbf9bc471ea77b37181473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 07/27] fix: keep Slepian wavelet coefficients aligned with the
 wavelets

A scale whose coefficients are all zero was removed, which shifted the
remaining scales against the wavelets in the inverse transform.
---
 src/sleplet/wavelet_methods.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..85f4cf5 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -26,13 +26,13 @@ def slepian_wavelet_forward(
     Returns:
         The Slepian wavelets coefficients of the signal.
     """
-    return find_non_zero_wavelet_coefficients(
-        sleplet._convolution_methods.sifting_convolution(
-            wavelets,
-            f_p,
-            shannon=shannon,
-        ),
-        axis=1,
+    # only drop the wavelets without any support within the Shannon number, as the
+    # rows of the coefficients must match those of the wavelets in the inverse
+    support = np.flatnonzero(wavelets[:, :shannon].any(axis=1))
+    return sleplet._convolution_methods.sifting_convolution(
+        wavelets[: support.max(initial=-1) + 1],
+        f_p,
+        shannon=shannon,
     )
 
 
-- 
2.43.0


From 376027eb80639bcbbf7b5103793172e815e20c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 08/27] fix: create mesh noise from the mesh field

---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From 08780197552552b0b3fe2acd7d8e063a024084c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 09/27] fix: reject a mesh rank beyond the number of basis
 functions

---
 src/sleplet/meshes/mesh_basis_functions.py   | 4 ++--
 src/sleplet/meshes/mesh_slepian_functions.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sleplet/meshes/mesh_basis_functions.py b/src/sleplet/meshes/mesh_basis_functions.py
index 444cb0b..849fd20 100644
--- a/src/sleplet/meshes/mesh_basis_functions.py
+++ b/src/sleplet/meshes/mesh_basis_functions.py
@@ -59,8 +59,8 @@ class MeshBasisFunctions(MeshHarmonicCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
diff --git a/src/sleplet/meshes/mesh_slepian_functions.py b/src/sleplet/meshes/mesh_slepian_functions.py
index db69bad..ac51036 100644
--- a/src/sleplet/meshes/mesh_slepian_functions.py
+++ b/src/sleplet/meshes/mesh_slepian_functions.py
@@ -23,6 +23,7 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
     selects a given Slepian function from the spectrum (p in the papers)."""
 
     def __post_init__(self: typing_extensions.Self) -> None:
+        self._validate_rank()
         super().__post_init__()
 
     def _create_coefficients(
@@ -62,8 +63,8 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
-- 
2.43.0


From 1611df026a368b977402743826d2afad5400320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 10/27] fix: do not overwrite the given coefficients in hard
 thresholding

---
 src/sleplet/noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 3384b8d..60e4fe6 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -141,6 +141,7 @@ def harmonic_hard_thresholding(
         The thresholded wavelet coefficients.
     """
     _logger.info("begin harmonic hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs[1:]):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs) - 1}"
         _logger.info(msg)
@@ -175,6 +176,7 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
@@ -328,6 +330,7 @@ def slepian_mesh_hard_thresholding(
         The thresholded wavelet coefficients of the mesh.
     """
     _logger.info("begin Slepian mesh hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From 416c9b5ee7aea93f809c540bb5e80ecc5a368b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 11/27] fix: distinguish non-integer arguments in filenames

---
 src/sleplet/_string_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 31cdced..7a48b6e 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -29,7 +29,7 @@ def filename_args(value: float, arg_name: str) -> str:
     filename = "_"
     num, dem = _get_angle_num_dem(value)
     filename += f"{num}{arg_name}"
-    if abs(value) < 1 and value != 0:
+    if dem != 1:
         filename += f"{dem}"
     return filename
 
-- 
2.43.0


From 9f83a12023a88a1919dc4db70452dd46b548d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 12/27] fix: account for both caps in the area of a polar gap

---
 src/sleplet/slepian/slepian_polar_cap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 42da50d..e965ab0 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -58,7 +58,8 @@ class SlepianPolarCap(SlepianFunctions):
         return sleplet._mask_methods.create_mask_region(self.L, self.region)
 
     def _calculate_area(self: typing_extensions.Self) -> float:
-        return 2 * np.pi * (1 - np.cos(self.theta_max))
+        # the gap has a cap at both of the poles
+        return (1 + self.gap) * 2 * np.pi * (1 - np.cos(self.theta_max))
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
-- 
2.43.0


From f8b3ed4b2e3f34ec4f34e86bb9e6ae89b59e0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 13/27] fix: do not share eigensolutions between regions of
 fractional degrees

The angles are rounded to whole degrees in the name of the region, hence
the saved eigensolutions of a different region could be loaded.
---
 src/sleplet/_string_methods.py               |  8 ++++++++
 src/sleplet/slepian/slepian_limit_lat_lon.py | 10 +++++++++-
 src/sleplet/slepian/slepian_polar_cap.py     |  5 ++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 7a48b6e..2e1d2a4 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -78,6 +78,14 @@ def angle_as_degree(radian: float) -> int:
     return round(np.rad2deg(radian))
 
 
+def fraction_of_degrees(*radians: float) -> str:
+    """Create ending to distinguish angles which round to the same degrees."""
+    degrees = np.rad2deg(radians)
+    if np.allclose(degrees, np.round(degrees), rtol=0, atol=1e-10):
+        return ""
+    return f"_{'-'.join(f'{degree:.10f}' for degree in degrees)}"
+
+
 def wavelet_ending(j_min: int, j: int | None) -> str:
     """Create the ending name of the given wavelet."""
     return "_scaling" if j is None else f"{filename_args(j + j_min, 'j')}"
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 78c99a9..10133d6 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -15,6 +15,7 @@ import pyssht as ssht
 import sleplet._array_methods
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
+import sleplet._string_methods
 import sleplet._validation
 import sleplet._vars
 import sleplet.slepian.region
@@ -57,8 +58,15 @@ class SlepianLimitLatLon(SlepianFunctions):
         )
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
+        angles = sleplet._string_methods.fraction_of_degrees(
+            self.theta_min,
+            self.theta_max,
+            self.phi_min,
+            self.phi_max,
+        )
         return (
-            f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
+            f"slepian_eigensolutions_D_{self.region._name_ending}{angles}"
+            f"_L{self.L}_N{self.N}"
         )
 
     def _solve_eigenproblem(
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index e965ab0..5b696c2 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -19,6 +19,7 @@ import pyssht as ssht
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
 import sleplet._parallel_methods
+import sleplet._string_methods
 import sleplet._validation
 import sleplet.harmonic_methods
 import sleplet.slepian.region
@@ -62,8 +63,10 @@ class SlepianPolarCap(SlepianFunctions):
         return (1 + self.gap) * 2 * np.pi * (1 - np.cos(self.theta_max))
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
+        angles = sleplet._string_methods.fraction_of_degrees(self.theta_max)
         return (
-            f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
+            f"slepian_eigensolutions_D_{self.region._name_ending}{angles}"
+            f"_L{self.L}_N{self.N}"
         )
 
     def _solve_eigenproblem(
-- 
2.43.0


From 3bb21ad9069393963d080d9c73db90faf79c64cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 14/27] fix: save computed files atomically

A process interrupted while saving left a truncated file behind, which
all later runs failed to load.
---
 src/sleplet/_data/setup_pooch.py             | 19 +++++++++++++++++++
 src/sleplet/_mask_methods.py                 |  6 +-----
 src/sleplet/_mesh_methods.py                 |  7 ++-----
 src/sleplet/meshes/mesh_slepian.py           | 10 ++++------
 src/sleplet/slepian/slepian_arbitrary.py     |  8 ++------
 src/sleplet/slepian/slepian_limit_lat_lon.py |  9 ++-------
 src/sleplet/slepian/slepian_polar_cap.py     | 10 +++-------
 7 files changed, 33 insertions(+), 36 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index f6d9929..7564816 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -1,7 +1,10 @@
 import logging
 import os
+import threading
 import typing
 
+import numpy as np
+import numpy.typing as npt
 import platformdirs
 import pooch
 
@@ -58,6 +61,22 @@ def _lazy_load_registry(
     return wrapper
 
 
+def save_to_local(filename: str, array: npt.NDArray[typing.Any]) -> None:
+    """
+    Save an array in the data folder, a partially written file is never found.
+
+    Args:
+        filename: Filename to save as
+        array: Array to save
+    """
+    save_path = platformdirs.user_data_path()
+    save_path.mkdir(parents=True, exist_ok=True)
+    partial = save_path / f"{filename}.{os.getpid()}-{threading.get_ident()}.part"
+    with partial.open("wb") as f:
+        np.save(f, array)
+    partial.replace(save_path / filename)
+
+
 @_lazy_load_registry
 def find_on_pooch_then_local(filename: str) -> os.PathLike[str] | None:
     """
diff --git a/src/sleplet/_mask_methods.py b/src/sleplet/_mask_methods.py
index efb1536..57a854d 100644
--- a/src/sleplet/_mask_methods.py
+++ b/src/sleplet/_mask_methods.py
@@ -1,11 +1,9 @@
 import logging
 import os
-import pathlib
 import typing
 
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 
 import pyssht as ssht
 
@@ -201,7 +199,5 @@ def create_mask(L: int, mask_name: str) -> npt.NDArray[np.float64]:
     else:
         msg = f"Mask name {mask_name} not recognised"
         raise ValueError(msg)
-    save_path = platformdirs.user_data_path()
-    pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-    np.save(save_path / f"slepian_masks_{mask_name}", mask)
+    sleplet._data.setup_pooch.save_to_local(f"slepian_masks_{mask_name}", mask)
     return mask
diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index d461d3f..ddc5d2a 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -5,7 +5,6 @@ import typing
 import igl
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 import scipy.sparse.linalg as LA_sparse  # noqa: N812
 import tomli
 
@@ -104,10 +103,8 @@ def mesh_eigendecomposition(
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors)
+        sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors)
     return eigenvalues, eigenvectors, number_basis_functions
 
 
diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 6fcfb94..2a42535 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -3,12 +3,10 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -88,10 +86,10 @@ class MeshSlepian:
             self.slepian_eigenvalues,
             self.slepian_functions,
         ) = self._clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, self.slepian_eigenvalues)
-        np.save(save_path / evec_loc, self.slepian_functions[: self.N])
+        sleplet._data.setup_pooch.save_to_local(eval_loc, self.slepian_eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(
+            evec_loc, self.slepian_functions[: self.N]
+        )
 
     def _create_D_matrix(  # noqa: N802
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 6f60303..bfad7c0 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -3,12 +3,10 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -101,10 +99,8 @@ class SlepianArbitrary(SlepianFunctions):
             eigenvalues,
             eigenvectors,
         ) = sleplet._slepian_arbitrary_methods.clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[: self.N])
+        sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_D_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 10133d6..73c65e2 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -1,12 +1,9 @@
 """Contains the `SlepianLimitLatLon` class."""
 
-import pathlib
-
 import numba
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -84,10 +81,8 @@ class SlepianLimitLatLon(SlepianFunctions):
         except TypeError:
             K = self._create_K_matrix()
             eigenvalues, eigenvectors = self._clean_evals_and_evecs(LA.eigh(K))
-            save_path = platformdirs.user_data_path()
-            pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-            np.save(save_path / eval_loc, eigenvalues)
-            np.save(save_path / evec_loc, eigenvectors[: self.N])
+            sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+            sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_K_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 5b696c2..a6bf4a9 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -4,13 +4,11 @@ import concurrent.futures
 import dataclasses
 import logging
 import os
-import pathlib
 
 import gmpy2 as gp
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -137,11 +135,9 @@ class SlepianPolarCap(SlepianFunctions):
             self.order,
         ) = self._sort_all_evals_and_evecs(evals_all, evecs_all, emm)
         limit = self.N if self.L > _L_SAVE_ALL else None
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[:limit])
-        np.save(save_path / order_loc, self.order)
+        sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors[:limit])
+        sleplet._data.setup_pooch.save_to_local(order_loc, self.order)
         return eigenvalues, eigenvectors
 
     def _solve_eigenproblem_order(
-- 
2.43.0


From e1dfa889d474b08286b80a4a57d039d1e32641b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 15/27] fix: noise Slepian functions which extend beyond the
 Shannon number

---
 src/sleplet/functions/fp.py                     | 6 ++++++
 src/sleplet/meshes/mesh_slepian_coefficients.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/sleplet/functions/fp.py b/src/sleplet/functions/fp.py
index 093c1eb..4be3aaa 100644
--- a/src/sleplet/functions/fp.py
+++ b/src/sleplet/functions/fp.py
@@ -9,6 +9,7 @@ import typing_extensions
 
 import sleplet._mask_methods
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 import sleplet.slepian.region
 import sleplet.slepian.slepian_functions
@@ -74,6 +75,11 @@ class Fp(Coefficients):
                 self.slepian,
                 self.noise,
             )
+            # the noise is zero beyond the Shannon number
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                self.coefficients.shape[0] - n_p.shape[0],
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
diff --git a/src/sleplet/meshes/mesh_slepian_coefficients.py b/src/sleplet/meshes/mesh_slepian_coefficients.py
index 8a14276..d5ba55c 100644
--- a/src/sleplet/meshes/mesh_slepian_coefficients.py
+++ b/src/sleplet/meshes/mesh_slepian_coefficients.py
@@ -8,6 +8,7 @@ import pydantic
 import typing_extensions
 
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 from sleplet.meshes.mesh_coefficients import MeshCoefficients
 from sleplet.meshes.mesh_slepian import MeshSlepian
@@ -39,6 +40,11 @@ class MeshSlepianCoefficients(MeshCoefficients):
                 self.coefficients,
                 self.noise,
             )
+            # the noise is zero beyond the Shannon number
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                self.coefficients.shape[0] - n_p.shape[0],
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
-- 
2.43.0


From b80e37c00485bfc05fc105773d2c2101db2f7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 16/27] fix: reproducible mesh eigenfunctions

The starting vector of the eigensolver was random, hence signs and
degenerate eigenfunctions differed between runs. Slepian functions saved
by one run are coefficients of its eigenfunctions and were wrong with
those of another run.
---
 src/sleplet/_mesh_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index ddc5d2a..c0ce8fc 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -10,6 +10,7 @@ import tomli
 
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
+import sleplet._vars
 
 _data_path = pathlib.Path(__file__).resolve().parent / "_data"
 _logger = logging.getLogger(__name__)
@@ -100,6 +101,9 @@ def mesh_eigendecomposition(
             k=number_basis_functions,
             which="LM",
             sigma=0,
+            v0=np.random.default_rng(sleplet._vars.RANDOM_SEED).standard_normal(
+                vertices.shape[0],
+            ),
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-- 
2.43.0


From 339156286c4221aa2a3ddef9eb7adede5b4b72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 17/27] fix: raise when the disk is full while saving

numpy does not check whether the last buffer of a small array was
written, hence a truncated file was renamed to its location.
---
 src/sleplet/_data/setup_pooch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 7564816..d8c8145 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -1,6 +1,7 @@
 import logging
 import os
 import threading
+import types
 import typing
 
 import numpy as np
@@ -73,7 +74,8 @@ def save_to_local(filename: str, array: npt.NDArray[typing.Any]) -> None:
     save_path.mkdir(parents=True, exist_ok=True)
     partial = save_path / f"{filename}.{os.getpid()}-{threading.get_ident()}.part"
     with partial.open("wb") as f:
-        np.save(f, array)
+        # numpy ignores a full disk when it writes to a file on its own
+        np.save(types.SimpleNamespace(write=f.write), array)
     partial.replace(save_path / filename)
 
 
-- 
2.43.0


From 87007410722ffc9e90514c06458e7ae33dfca0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 18/27] fix: evaluate the Slepian functions at the nearest
 sample

The index of a sample's own angle was truncated to the sample before it for
some samples, due to rounding of the division by the sample spacing.
---
 src/sleplet/slepian_methods.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 7c2cf46..a7e613c 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -160,8 +160,9 @@ def _compute_s_p_omega_prime(
 ) -> npt.NDArray[np.complex128]:
     """Pick out the desired angle from Sp(omega)."""
     sp_omega = compute_s_p_omega(L, slepian)
-    p = ssht.theta_to_index(beta, L, Method=sleplet._vars.SAMPLING_SCHEME)
-    q = ssht.phi_to_index(alpha, L, Method=sleplet._vars.SAMPLING_SCHEME)
+    thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
+    p = np.abs(thetas - beta).argmin()
+    q = np.abs(np.exp(1j * phis) - np.exp(1j * alpha)).argmin()
     sp_omega_prime = sp_omega[:, p, q]
     # pad with zeros so it has the expected shape
     boost = L**2 - slepian.N
-- 
2.43.0


From ace1867ce41d3b3465ae1fe1cfce06e39059dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 19/27] fix: find the nearest grid point across longitude zero

---
 src/sleplet/plot_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d85343a..ffc22ca 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -52,7 +52,7 @@ def _calc_nearest_grid_point(
     as the rotation such that the difference error is small.
     """
     thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
-    pix_j = np.abs(phis - alpha_pi_fraction * np.pi).argmin()
+    pix_j = np.abs(np.exp(1j * phis) - np.exp(1j * alpha_pi_fraction * np.pi)).argmin()
     pix_i = np.abs(thetas - beta_pi_fraction * np.pi).argmin()
     alpha, beta = phis[pix_j], thetas[pix_i]
     msg = f"grid point: (alpha, beta)=({alpha:e}, {beta:e})"
-- 
2.43.0


From 21c205d629ff077a9a649ec5b977d787ef3663a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 20/27] fix: keep the imaginary parts of real Slepian wavelet
 coefficients

---
 src/sleplet/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 60e4fe6..74670c0 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -176,7 +176,7 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
-    wav_coeffs = wav_coeffs.copy()
+    wav_coeffs = wav_coeffs.astype(np.complex128)
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From a9663a448144ca428c18fe6417147890a3efad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 21/27] fix: reject wavelet parameters and scales the tiling is
 not defined for

A negative minimum scale corrupted the memory of the native code and a
wavelet parameter of at most one gave no tiling at all.
---
 src/sleplet/wavelet_methods.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 85f4cf5..3ec3b5c 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -141,6 +141,12 @@ def create_kappas(xlim: int, B: int, j_min: int) -> npt.NDArray[np.float64]:
     Returns:
         The Slepian wavelet generating functions.
     """
+    if B <= 1:
+        msg = "the wavelet parameter should be greater than 1"
+        raise ValueError(msg)
+    if j_min < 0:
+        msg = "the minimum wavelet scale cannot be negative"
+        raise ValueError(msg)
     kappa0, kappa = pys2let.axisym_wav_l(B, xlim, j_min)
     return np.concatenate((kappa0[np.newaxis], kappa.T))
 
-- 
2.43.0


From a3faa392922b3536c782abd06a7d8e86d0c862e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 22/27] fix: reject ranks of Slepian functions beyond the
 Shannon number

Only the extra arguments were checked, and against the number of all basis
functions although only the first Shannon number of them are available.
---
 src/sleplet/functions/slepian.py             | 14 +++++---------
 src/sleplet/meshes/mesh_slepian_functions.py | 14 +++++---------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/sleplet/functions/slepian.py b/src/sleplet/functions/slepian.py
index 649b2e3..0702ee9 100644
--- a/src/sleplet/functions/slepian.py
+++ b/src/sleplet/functions/slepian.py
@@ -22,10 +22,6 @@ class Slepian(Fp):
     r"""Slepian eigenvalues are ordered in decreasing value. The option `rank`
     selects a given Slepian function from the spectrum (p in the papers)."""
 
-    def __post_init__(self: typing_extensions.Self) -> None:
-        self._validate_rank()
-        super().__post_init__()
-
     def _create_name(self: typing_extensions.Self) -> str:
         order = (
             f"_m{self.slepian.order[self.rank]}"
@@ -68,14 +64,14 @@ class Slepian(Fp):
                 msg = f"The number of extra arguments should be 1 or {num_args}"
                 raise ValueError(msg)
             self.rank = self.extra_args[0]
+        self._validate_rank()
 
     def _validate_rank(self: typing_extensions.Self) -> None:
         """Check the requested rank is valid."""
-        if isinstance(self.extra_args, list):
-            limit = self.L**2
-            if self.extra_args[0] >= limit:
-                msg = f"rank should be less than {limit}"
-                raise ValueError(msg)
+        limit = self.slepian.N
+        if not 0 <= self.rank < limit:
+            msg = f"rank should be non-negative and less than {limit}"
+            raise ValueError(msg)
 
     @pydantic.field_validator("rank")
     def _check_rank(
diff --git a/src/sleplet/meshes/mesh_slepian_functions.py b/src/sleplet/meshes/mesh_slepian_functions.py
index ac51036..d4af616 100644
--- a/src/sleplet/meshes/mesh_slepian_functions.py
+++ b/src/sleplet/meshes/mesh_slepian_functions.py
@@ -22,10 +22,6 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
     """Slepian eigenvalues are ordered in decreasing value. The option `rank`
     selects a given Slepian function from the spectrum (p in the papers)."""
 
-    def __post_init__(self: typing_extensions.Self) -> None:
-        self._validate_rank()
-        super().__post_init__()
-
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
@@ -58,14 +54,14 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
                 msg = f"The number of extra arguments should be 1 or {num_args}"
                 raise ValueError(msg)
             self.rank = self.extra_args[0]
+        self._validate_rank()
 
     def _validate_rank(self: typing_extensions.Self) -> None:
         """Check the requested rank is valid."""
-        if isinstance(self.extra_args, list):
-            limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] >= limit:
-                msg = f"rank should be less than {limit}"
-                raise ValueError(msg)
+        limit = self.mesh_slepian.N
+        if not 0 <= self.rank < limit:
+            msg = f"rank should be non-negative and less than {limit}"
+            raise ValueError(msg)
 
     @pydantic.field_validator("rank")
     def _check_rank(
-- 
2.43.0


From e030ef0712823b683905d80c382f8b91fe66a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 23/27] fix: accept the annotations of translations in plots of
 the sphere

Their colour and arrow side are strings, hence each plot of a translation
was rejected unless the annotations were turned off.
---
 src/sleplet/_plotly_methods.py              | 2 +-
 src/sleplet/_scripts/plotting_on_sphere.py  | 2 +-
 src/sleplet/plotting/_create_plot_sphere.py | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_plotly_methods.py b/src/sleplet/_plotly_methods.py
index a1f3381..1a83873 100644
--- a/src/sleplet/_plotly_methods.py
+++ b/src/sleplet/_plotly_methods.py
@@ -32,7 +32,7 @@ def create_camera(  # noqa: PLR0913
 def create_layout(
     camera: go.layout.scene.Camera,
     *,
-    annotations: list[dict[str, float | int]] | None = None,
+    annotations: list[dict[str, float | int | str]] | None = None,
 ) -> go.Layout:
     """Create the default plotly layout."""
     return go.Layout(
diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 1b0d983..cf2d8e5 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -302,7 +302,7 @@ def _translation_helper(
     alpha_pi_frac: float,
     beta_pi_frac: float,
     shannon: int | None,
-) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int]]:
+) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int | str]]:
     """Perform the translation specific steps."""
     msg = f"angles: (alpha, beta) = ({alpha_pi_frac}, {beta_pi_frac})"
     _logger.info(msg)
diff --git a/src/sleplet/plotting/_create_plot_sphere.py b/src/sleplet/plotting/_create_plot_sphere.py
index 933b60b..87b384e 100644
--- a/src/sleplet/plotting/_create_plot_sphere.py
+++ b/src/sleplet/plotting/_create_plot_sphere.py
@@ -32,7 +32,9 @@ class PlotSphere:
     _: dataclasses.KW_ONLY
     amplitude: float | None = None
     """Whether to customise the amplitude range of the colour bar."""
-    annotations: list[dict[str, float | int]] = pydantic.Field(default_factory=list)
+    annotations: list[dict[str, float | int | str]] = pydantic.Field(
+        default_factory=list,
+    )
     """Whether to display any annotations on the surface plot or not."""
     normalise: bool = True
     """Whether to normalise the plot or not."""
-- 
2.43.0


From dd058a094eb47850b1fcef1c775c744742d30261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 24/27] fix: do not rotate Slepian coefficients convolved with
 the Earth

They were treated as harmonic coefficients, hence the command failed.
---
 src/sleplet/_scripts/plotting_on_sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index cf2d8e5..55890bd 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -231,8 +231,8 @@ def plot(  # noqa: PLR0913
             filename,
         )
 
-    # rotate plot of Earth
-    if "earth" in filename:
+    # rotate plot of Earth, not defined for Slepian coefficients
+    if "earth" in filename and not hasattr(f, "slepian"):
         match earth_view:
             case "africa":
                 coefficients = sleplet.harmonic_methods.rotate_earth_to_africa(
-- 
2.43.0


From 853ccd37a200f7d514d62e03719c46f23ce60e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:54 +0000
Subject: [PATCH 25/27] fix: reject bandlimits which are not positive

Some functions gave empty coefficients for them, others crashed in native code.
---
 src/sleplet/functions/coefficients.py    | 10 ++++++++++
 src/sleplet/slepian/slepian_functions.py | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/sleplet/functions/coefficients.py b/src/sleplet/functions/coefficients.py
index 2093b2d..b1d1188 100644
--- a/src/sleplet/functions/coefficients.py
+++ b/src/sleplet/functions/coefficients.py
@@ -204,3 +204,13 @@ class Coefficients:
     def _setup_args(self: typing_extensions.Self) -> None:
         """Initialise function specific args either default value or user input."""
         raise NotImplementedError
+
+    @pydantic.field_validator("L")
+    def _check_bandlimit(
+        cls,
+        v: int,
+    ) -> int:
+        if v < 1:
+            msg = "the bandlimit should be positive"
+            raise ValueError(msg)
+        return v
diff --git a/src/sleplet/slepian/slepian_functions.py b/src/sleplet/slepian/slepian_functions.py
index 9d0da80..bd652ee 100644
--- a/src/sleplet/slepian/slepian_functions.py
+++ b/src/sleplet/slepian/slepian_functions.py
@@ -94,3 +94,13 @@ class SlepianFunctions:
     ) -> tuple[npt.NDArray[np.float64], npt.NDArray[np.complex128]]:
         """Solve the eigenproblem for the given function."""
         raise NotImplementedError
+
+    @pydantic.field_validator("L")
+    def _check_bandlimit(
+        cls,
+        v: int,
+    ) -> int:
+        if v < 1:
+            msg = "the bandlimit should be positive"
+            raise ValueError(msg)
+        return v
-- 
2.43.0


From eda06b9ee1c8ddb45b3e83befbf81dfd2c34f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 26/27] fix: find the largest amplitude of functions with a
 spin

Their coefficients were transformed to a field without the spin.
---
 src/sleplet/plot_methods.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index ffc22ca..5bef386 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -79,18 +79,7 @@ def find_max_amplitude(
         The maximum amplitude value.
     """
     # compute inverse transform
-    if hasattr(function, "slepian"):
-        field = sleplet.slepian_methods.slepian_inverse(
-            function.coefficients,
-            function.L,
-            function.slepian,
-        )
-    else:
-        field = ssht.inverse(
-            function.coefficients,
-            function.L,
-            Method=sleplet._vars.SAMPLING_SCHEME,
-        )
+    field = _coefficients_to_field_sphere(function, function.coefficients)
 
     # find resolution of final plot for boosting if necessary
     resolution = calc_plot_resolution(function.L) if upsample else function.L
-- 
2.43.0


From e975ce43d9890d6da76e2f23a6d2a3f799e3aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 27/27] fix: normalise fields of small values

All values below 1e-8 were taken as constant, and hence neither started
from zero nor were between zero and one if their signs differed.
---
 src/sleplet/plot_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index 5bef386..5033ee0 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -146,7 +146,7 @@ def _normalise_function(
         # if all 0, set to 0
         return (f + 0.5).astype(np.float64)
     # if all non-zero, set to 1 otherwise scale from [0, 1]
-    return f / f.max() if np.allclose(f, f.max()) else (f - f.min()) / np.ptp(f)
+    return f / f.max() if np.allclose(f, f.max(), atol=0) else (f - f.min()) / np.ptp(f)
 
 
 def _boost_field(  # noqa: PLR0913
-- 
2.43.0

