From 051331e9376243bbe07adc004d2637e533d04205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 01/35] fix: polar cap Slepian matrix filled with scalars, not
 1-element arrays

numpy>=2.5 refuses to store a 1-element array in a matrix entry, so every
row of the polar cap matrix was left at zero and all eigenvalues were 0.
---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 5573e2050b9008c23dc8c1209cc8cb9334e30284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 02/35] fix: raise when a worker fails while filling a Slepian
 matrix

The results of ThreadPoolExecutor.map were never consumed, so an exception
in a worker was dropped and a partly filled matrix was solved and saved.
---
 src/sleplet/meshes/mesh_slepian.py       | 21 +++++++++++----------
 src/sleplet/slepian/slepian_arbitrary.py | 21 +++++++++++----------
 src/sleplet/slepian/slepian_polar_cap.py | 21 +++++++++++----------
 3 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 10765fb..b3b27f5 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -128,16 +128,17 @@ class MeshSlepian:
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        D = D_ext.copy()
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
+        try:
+            # initialise pool and apply function, raises if a worker failed
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            D = D_ext.copy()
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
         return D
 
     def _fill_D_elements(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..c4e0660 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -145,16 +145,17 @@ class SlepianArbitrary(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        D = D_r_ext + 1j * D_i_ext
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_r_ext, shm_i_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_r_ext, shm_i_ext)
+        try:
+            # initialise pool and apply function, raises if a worker failed
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            D = D_r_ext + 1j * D_i_ext
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_r_ext, shm_i_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_r_ext, shm_i_ext)
         return D
 
     def _matrix_helper(
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..cf0a13d 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -217,16 +217,17 @@ class SlepianPolarCap(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        Dm = Dm_ext * (-1) ** m / 2
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
+        try:
+            # initialise pool and apply function, raises if a worker failed
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            Dm = Dm_ext * (-1) ** m / 2
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
         return Dm
 
     def _create_legendre_polynomials_table(
-- 
2.43.0


From 17f78462f5710c033cee9cddc702e854fcd86ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 03/35] fix: keep the denominator of arguments above 1 in
 filenames

filename_args(2.5) and filename_args(5) gave the same name.
---
 src/sleplet/_string_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 31cdced..7a48b6e 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -29,7 +29,7 @@ def filename_args(value: float, arg_name: str) -> str:
     filename = "_"
     num, dem = _get_angle_num_dem(value)
     filename += f"{num}{arg_name}"
-    if abs(value) < 1 and value != 0:
+    if dem != 1:
         filename += f"{dem}"
     return filename
 
-- 
2.43.0


From 5c29b24ffa9fdbbf783c68a9a14b9d0f6ec07a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 04/35] fix: keep fractions of a degree in region names

The names of the saved eigensolutions are made from the angles of the region
rounded to integer degrees, so two regions less than a degree apart read each
other's eigensolutions.
---
 src/sleplet/_string_methods.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 7a48b6e..08b21d1 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -73,9 +73,11 @@ def multiples_of_pi(angle: float) -> str:
     return f"{multiple if multiple != 1 else ''}\u03c0"
 
 
-def angle_as_degree(radian: float) -> int:
-    """Convert radian angle to integer degree."""
-    return round(np.rad2deg(radian))
+def angle_as_degree(radian: float) -> int | float:
+    """Convert radian angle to degree, an integer unless the angle has a fraction."""
+    degree = float(np.rad2deg(radian))
+    nearest = round(degree)
+    return nearest if np.isclose(degree, nearest, rtol=0, atol=1e-9) else degree
 
 
 def wavelet_ending(j_min: int, j: int | None) -> str:
-- 
2.43.0


From 86a2758aae29a60937c657ec2f0b75ad71c8e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 05/35] fix: count both caps in the area of a polar gap region

The mask and the Slepian matrix cover the two caps but the area, hence the
Shannon number, was that of one.
---
 src/sleplet/slepian/slepian_polar_cap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index cf0a13d..a1b5fdd 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -58,7 +58,8 @@ class SlepianPolarCap(SlepianFunctions):
         return sleplet._mask_methods.create_mask_region(self.L, self.region)
 
     def _calculate_area(self: typing_extensions.Self) -> float:
-        return 2 * np.pi * (1 - np.cos(self.theta_max))
+        n_caps = 2 if self.gap else 1
+        return n_caps * 2 * np.pi * (1 - np.cos(self.theta_max))
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
-- 
2.43.0


From a385d27de53314af0d3c0f1f93ffd16e8aef97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 06/35] fix: solve a single order of a polar cap whatever was
 saved before

Once all the orders of a polar cap with L > 16 had been saved, only the first
N eigenvectors were available, and asking for one order raised an IndexError.
---
 src/sleplet/slepian/slepian_polar_cap.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index a1b5fdd..c609db9 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -72,6 +72,9 @@ class SlepianPolarCap(SlepianFunctions):
         eval_loc = f"{self.matrix_location}_eigenvalues.npy"
         evec_loc = f"{self.matrix_location}_eigenvectors.npy"
         order_loc = f"{self.matrix_location}_orders.npy"
+        if isinstance(self.order, int):
+            # the saved eigenvectors may not include all those of a given order
+            return self._solve_eigenproblem_order(self.order)
         try:
             eigenvalues, eigenvectors = self._solve_eigenproblem_from_files(
                 eval_loc,
@@ -101,9 +104,6 @@ class SlepianPolarCap(SlepianFunctions):
         )
         orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
 
-        if self.order is not None:
-            idx = np.where(orders == self.order)
-            return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
         return eigenvalues, eigenvectors
 
@@ -114,9 +114,6 @@ class SlepianPolarCap(SlepianFunctions):
         order_loc: str,
     ) -> tuple[npt.NDArray[np.float64], npt.NDArray[np.complex128]]:
         """Solve eigenproblem from scratch and then saves the files."""
-        if isinstance(self.order, int):
-            return self._solve_eigenproblem_order(self.order)
-
         evals_all = np.empty(0)
         evecs_all = np.empty((0, self.L**2), dtype=np.complex128)
         emm = np.empty(0, dtype=int)
-- 
2.43.0


From a2b9ce5898dd1ce102fc8f55bc1c16e3fc50b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 07/35] fix: keep the Slepian wavelet scales on which the
 signal vanishes

The forward transform left out every scale with no coefficients, hence the
inverse paired the remaining ones with the wrong wavelets.
---
 src/sleplet/wavelet_methods.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..d4a9bb6 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -26,14 +26,14 @@ def slepian_wavelet_forward(
     Returns:
         The Slepian wavelets coefficients of the signal.
     """
-    return find_non_zero_wavelet_coefficients(
-        sleplet._convolution_methods.sifting_convolution(
-            wavelets,
-            f_p,
-            shannon=shannon,
-        ),
-        axis=1,
+    wav_coeffs = sleplet._convolution_methods.sifting_convolution(
+        wavelets,
+        f_p,
+        shannon=shannon,
     )
+    # only the scales outside of the shannon number can be left out,
+    # the inverse relies on the position of the others
+    return wav_coeffs[wavelets[:, :shannon].any(axis=1)]
 
 
 def slepian_wavelet_inverse(
-- 
2.43.0


From 2a982ac41b587cdc3a28a2d25ac3e2d7962b0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 08/35] fix: normalise fields of a small amplitude

The absolute tolerance made any field below 1e-8 count as constant, so it was
divided by its maximum rather than scaled to [0, 1].
---
 src/sleplet/plot_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d85343a..4a7bebb 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -157,7 +157,9 @@ def _normalise_function(
         # if all 0, set to 0
         return (f + 0.5).astype(np.float64)
     # if all non-zero, set to 1 otherwise scale from [0, 1]
-    return f / f.max() if np.allclose(f, f.max()) else (f - f.min()) / np.ptp(f)
+    return (
+        f / f.max() if np.allclose(f, f.max(), atol=0) else (f - f.min()) / np.ptp(f)
+    )
 
 
 def _boost_field(  # noqa: PLR0913
-- 
2.43.0


From 1a5f3dd2503fbba5c53944f0a610c91e800eba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 09/35] fix: use the spin and reality of a function to find its
 amplitude

find_max_amplitude inverted the coefficients as those of a complex spin 0
function, and then boosted the field with the actual spin and reality.
---
 src/sleplet/plot_methods.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index 4a7bebb..d9983a3 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -79,18 +79,7 @@ def find_max_amplitude(
         The maximum amplitude value.
     """
     # compute inverse transform
-    if hasattr(function, "slepian"):
-        field = sleplet.slepian_methods.slepian_inverse(
-            function.coefficients,
-            function.L,
-            function.slepian,
-        )
-    else:
-        field = ssht.inverse(
-            function.coefficients,
-            function.L,
-            Method=sleplet._vars.SAMPLING_SCHEME,
-        )
+    field = _coefficients_to_field_sphere(function, function.coefficients)
 
     # find resolution of final plot for boosting if necessary
     resolution = calc_plot_resolution(function.L) if upsample else function.L
-- 
2.43.0


From fdc76df26dfbb3b5d374cc7f80ec8fb650c1293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 10/35] fix: the identity function is not real

Its coefficients are all 1, which are not those of a real function, so the
transforms of a real signal gave another field.
---
 src/sleplet/functions/identity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/identity.py b/src/sleplet/functions/identity.py
index d930104..55366cc 100644
--- a/src/sleplet/functions/identity.py
+++ b/src/sleplet/functions/identity.py
@@ -28,7 +28,7 @@ class Identity(Flm):
         )
 
     def _set_reality(self: typing_extensions.Self) -> bool:
-        return True
+        return False
 
     def _set_spin(self: typing_extensions.Self) -> int:
         return 0
-- 
2.43.0


From de1d00a86e6013aa177a036255988986a4b60830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 11/35] fix: find the mesh field from its own module in
 MeshNoiseField

sleplet.meshes.mesh_slepian has no MeshField, so creating a MeshNoiseField
always raised an AttributeError.
---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From 0350d95e7ccae458e26587df1902c99f31e4f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 12/35] fix: look for local files when the archive is not
 reachable

Without a network the first lookup raised an error, and the later ones used
the registry left empty. Now they all find the local files. The registry is
only seen by other threads once it is loaded.
---
 src/sleplet/_data/setup_pooch.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 4b2bd7c..2cf125c 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -42,13 +42,20 @@ def _lazy_load_registry(
         """
         global _POOCH  # noqa: PLW0603
         if _POOCH is None:
-            _POOCH = pooch.create(
+            archive = pooch.create(
                 path=pooch.os_cache("sleplet"),
                 base_url=f"doi:{_ZENODO_DATA_DOI}/",
                 registry=None,
                 retry_if_failed=_POOCH_RETRY,
             )
-            _POOCH.load_registry_from_doi()
+            try:
+                archive.load_registry_from_doi()
+            except OSError as e:
+                # includes all the errors of the requests package
+                msg = f"https://doi.org/{_ZENODO_DATA_DOI} is not reachable: {e}"
+                _logger.warning(msg)
+            # set once the registry is loaded as it may be in use by other threads
+            _POOCH = archive
         return func(*args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 8309f5bfb718e88f6dc62522dc58b6f9efcc7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 13/35] fix: save arrays in the data folder atomically

An interrupted save left part of a file there, which every later run failed
to read.
---
 src/sleplet/_data/setup_pooch.py             | 24 ++++++++++++++++++++
 src/sleplet/_mask_methods.py                 |  6 +----
 src/sleplet/_mesh_methods.py                 |  7 ++----
 src/sleplet/meshes/mesh_slepian.py           | 11 ++++-----
 src/sleplet/slepian/slepian_arbitrary.py     |  8 ++-----
 src/sleplet/slepian/slepian_limit_lat_lon.py |  8 ++-----
 src/sleplet/slepian/slepian_polar_cap.py     | 10 +++-----
 7 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 2cf125c..e3e19d8 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -1,7 +1,11 @@
 import logging
 import os
+import pathlib
+import threading
 import typing
 
+import numpy as np
+import numpy.typing as npt
 import platformdirs
 import pooch
 
@@ -85,3 +89,23 @@ def find_on_pooch_then_local(filename: str) -> os.PathLike[str] | None:
     msg = f"No {filename} found, calculating..."
     _logger.info(msg)
     return None
+
+
+def save_locally(filename: str, array: npt.NDArray[typing.Any]) -> None:
+    """
+    Save an array in the data folder, where the file is only visible once
+    complete. An interrupted save does not leave a partial file behind.
+
+    Args:
+        filename: Filename to save
+        array: The array to save
+    """
+    save_path = pathlib.Path(platformdirs.user_data_path())
+    save_path.mkdir(parents=True, exist_ok=True)
+    partial = save_path / f".{filename}.{os.getpid()}-{threading.get_ident()}.part"
+    try:
+        with partial.open("wb") as f:
+            np.save(f, array)
+        partial.replace(save_path / filename)
+    finally:
+        partial.unlink(missing_ok=True)
diff --git a/src/sleplet/_mask_methods.py b/src/sleplet/_mask_methods.py
index efb1536..bd2b57b 100644
--- a/src/sleplet/_mask_methods.py
+++ b/src/sleplet/_mask_methods.py
@@ -1,11 +1,9 @@
 import logging
 import os
-import pathlib
 import typing
 
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 
 import pyssht as ssht
 
@@ -201,7 +199,5 @@ def create_mask(L: int, mask_name: str) -> npt.NDArray[np.float64]:
     else:
         msg = f"Mask name {mask_name} not recognised"
         raise ValueError(msg)
-    save_path = platformdirs.user_data_path()
-    pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-    np.save(save_path / f"slepian_masks_{mask_name}", mask)
+    sleplet._data.setup_pooch.save_locally(f"slepian_masks_{mask_name}", mask)
     return mask
diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index d461d3f..36600d3 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -5,7 +5,6 @@ import typing
 import igl
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 import scipy.sparse.linalg as LA_sparse  # noqa: N812
 import tomli
 
@@ -104,10 +103,8 @@ def mesh_eigendecomposition(
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors)
+        sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors)
     return eigenvalues, eigenvectors, number_basis_functions
 
 
diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index b3b27f5..eac86e3 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -3,12 +3,10 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -88,10 +86,11 @@ class MeshSlepian:
             self.slepian_eigenvalues,
             self.slepian_functions,
         ) = self._clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, self.slepian_eigenvalues)
-        np.save(save_path / evec_loc, self.slepian_functions[: self.N])
+        sleplet._data.setup_pooch.save_locally(eval_loc, self.slepian_eigenvalues)
+        sleplet._data.setup_pooch.save_locally(
+            evec_loc,
+            self.slepian_functions[: self.N],
+        )
 
     def _create_D_matrix(  # noqa: N802
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index c4e0660..275cc76 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -3,12 +3,10 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -96,10 +94,8 @@ class SlepianArbitrary(SlepianFunctions):
             eigenvalues,
             eigenvectors,
         ) = sleplet._slepian_arbitrary_methods.clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[: self.N])
+        sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_D_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 78c99a9..e6462dc 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -1,12 +1,10 @@
 """Contains the `SlepianLimitLatLon` class."""
 
-import pathlib
 
 import numba
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -76,10 +74,8 @@ class SlepianLimitLatLon(SlepianFunctions):
         except TypeError:
             K = self._create_K_matrix()
             eigenvalues, eigenvectors = self._clean_evals_and_evecs(LA.eigh(K))
-            save_path = platformdirs.user_data_path()
-            pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-            np.save(save_path / eval_loc, eigenvalues)
-            np.save(save_path / evec_loc, eigenvectors[: self.N])
+            sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+            sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_K_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index c609db9..c492c49 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -4,13 +4,11 @@ import concurrent.futures
 import dataclasses
 import logging
 import os
-import pathlib
 
 import gmpy2 as gp
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -128,11 +126,9 @@ class SlepianPolarCap(SlepianFunctions):
             self.order,
         ) = self._sort_all_evals_and_evecs(evals_all, evecs_all, emm)
         limit = self.N if self.L > _L_SAVE_ALL else None
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[:limit])
-        np.save(save_path / order_loc, self.order)
+        sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors[:limit])
+        sleplet._data.setup_pooch.save_locally(order_loc, self.order)
         return eigenvalues, eigenvectors
 
     def _solve_eigenproblem_order(
-- 
2.43.0


From 0efd0e402f425bd6c81efd5b92b17d7b71dfe74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 14/35] fix: declare the fields of SlepianArbitrary so that it
 can be computed

Since the attributes of the class are validated on assignment, setting the
undeclared `_fields` attribute raised a ValidationError.
---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 275cc76..e132233 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -34,6 +34,11 @@ class SlepianArbitrary(SlepianFunctions):
 
     mask_name: str
     """The name of the mask of the arbitrary region."""
+    _fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
     _weight: npt.NDArray[np.float64] = pydantic.Field(
         default_factory=lambda: np.empty(0),
         init_var=False,
@@ -103,7 +108,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From f6d4c26fc8444b1818203aef3401d81c830f81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 15/35] fix: mask the functions for the region they are given

The region of a harmonic function on the sphere or mesh (the --region flag of
the sphere and mesh CLI, 'masks the function for a region') was only appended
to the name of the function.
---
 src/sleplet/functions/coefficients.py   | 20 ++++++++++++++++----
 src/sleplet/meshes/mesh_coefficients.py |  5 +++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/sleplet/functions/coefficients.py b/src/sleplet/functions/coefficients.py
index 2093b2d..e252075 100644
--- a/src/sleplet/functions/coefficients.py
+++ b/src/sleplet/functions/coefficients.py
@@ -69,6 +69,14 @@ class Coefficients:
         self.spin = self._set_spin()
         self.reality = self._set_reality()
         self.coefficients = self._create_coefficients()
+        if self._is_masked():
+            self.coefficients = sleplet._mask_methods.ensure_masked_flm_bandlimited(
+                self.coefficients,
+                self.L,
+                self.region,
+                reality=self.reality,
+                spin=self.spin,
+            )
         self._add_details_to_name()
         self._unnoised_coefficients, self.snr = self._add_noise_to_signal()
 
@@ -123,15 +131,19 @@ class Coefficients:
             shannon=shannon,
         )
 
+    def _is_masked(self: typing_extensions.Self) -> bool:
+        """Whether the region masks the function, i.e. not a Slepian function."""
+        return (
+            isinstance(self.region, sleplet.slepian.region.Region)
+            and not set(self.name.split("_")) & _COEFFICIENTS_TO_NOT_MASK
+        )
+
     def _add_details_to_name(self: typing_extensions.Self) -> None:
         """
         Add region to the name if present if not a Slepian function
         adds noise/smoothing if appropriate and bandlimit.
         """
-        if (
-            isinstance(self.region, sleplet.slepian.region.Region)
-            and not set(self.name.split("_")) & _COEFFICIENTS_TO_NOT_MASK
-        ):
+        if self._is_masked():
             self.name += f"_{self.region._name_ending}"
         if self.noise is not None:
             self.name += f"{sleplet._string_methods.filename_args(self.noise, 'noise')}"
diff --git a/src/sleplet/meshes/mesh_coefficients.py b/src/sleplet/meshes/mesh_coefficients.py
index 965ab77..b30941f 100644
--- a/src/sleplet/meshes/mesh_coefficients.py
+++ b/src/sleplet/meshes/mesh_coefficients.py
@@ -60,6 +60,11 @@ class MeshCoefficients:
         self._setup_args()
         self.name = self._create_name()
         self.coefficients = self._create_coefficients()
+        if self.region and _COEFFICIENTS_TO_NOT_MASK not in self.name:
+            self.coefficients = sleplet._mask_methods.ensure_masked_bandlimit_mesh_signal(
+                self.mesh,
+                self.coefficients,
+            )
         self._add_details_to_name()
         self._unnoised_coefficients, self.snr = self._add_noise_to_signal()
 
-- 
2.43.0


From b48e3065f6aa4166cd168d31b3b1931f85e51ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 16/35] fix: do not rotate the Slepian coefficients of a
 convolution with the Earth

`sphere slepian -c earth` raised an IndexError.
---
 src/sleplet/_scripts/plotting_on_sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 1b0d983..4a12d66 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -231,8 +231,8 @@ def plot(  # noqa: PLR0913
             filename,
         )
 
-    # rotate plot of Earth
-    if "earth" in filename:
+    # rotate plot of Earth, Slepian coefficients cannot be rotated
+    if "earth" in filename and not hasattr(f, "slepian"):
         match earth_view:
             case "africa":
                 coefficients = sleplet.harmonic_methods.rotate_earth_to_africa(
-- 
2.43.0


From 9f906538791cd72d1d95c08fd5998d8d4e2d94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 17/35] fix: allow the text attributes of the annotations of
 sphere plots

A plot of a translation with its annotation, the default of
`sphere FUNCTION -m translate`, raised a ValidationError.
---
 src/sleplet/_plotly_methods.py              | 2 +-
 src/sleplet/_scripts/plotting_on_sphere.py  | 2 +-
 src/sleplet/plotting/_create_plot_sphere.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_plotly_methods.py b/src/sleplet/_plotly_methods.py
index a1f3381..1a83873 100644
--- a/src/sleplet/_plotly_methods.py
+++ b/src/sleplet/_plotly_methods.py
@@ -32,7 +32,7 @@ def create_camera(  # noqa: PLR0913
 def create_layout(
     camera: go.layout.scene.Camera,
     *,
-    annotations: list[dict[str, float | int]] | None = None,
+    annotations: list[dict[str, float | int | str]] | None = None,
 ) -> go.Layout:
     """Create the default plotly layout."""
     return go.Layout(
diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 4a12d66..e438107 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -302,7 +302,7 @@ def _translation_helper(
     alpha_pi_frac: float,
     beta_pi_frac: float,
     shannon: int | None,
-) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int]]:
+) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int | str]]:
     """Perform the translation specific steps."""
     msg = f"angles: (alpha, beta) = ({alpha_pi_frac}, {beta_pi_frac})"
     _logger.info(msg)
diff --git a/src/sleplet/plotting/_create_plot_sphere.py b/src/sleplet/plotting/_create_plot_sphere.py
index 933b60b..3c48fb8 100644
--- a/src/sleplet/plotting/_create_plot_sphere.py
+++ b/src/sleplet/plotting/_create_plot_sphere.py
@@ -32,7 +32,7 @@ class PlotSphere:
     _: dataclasses.KW_ONLY
     amplitude: float | None = None
     """Whether to customise the amplitude range of the colour bar."""
-    annotations: list[dict[str, float | int]] = pydantic.Field(default_factory=list)
+    annotations: list[dict[str, float | int | str]] = pydantic.Field(default_factory=list)
     """Whether to display any annotations on the surface plot or not."""
     normalise: bool = True
     """Whether to normalise the plot or not."""
-- 
2.43.0


From e3fbf9306449b2051da80c2c817ea54fe24fa277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:27 +0000
Subject: [PATCH 18/35] fix: pad the Slepian noise up to the size of the noised
 coefficients

Noising the Slepian wavelets, identity or Dirac delta (sphere or mesh) raised a
ValueError, as their coefficients go beyond the Shannon number.
---
 src/sleplet/functions/fp.py                     | 6 ++++++
 src/sleplet/meshes/mesh_slepian_coefficients.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/sleplet/functions/fp.py b/src/sleplet/functions/fp.py
index 093c1eb..30f2908 100644
--- a/src/sleplet/functions/fp.py
+++ b/src/sleplet/functions/fp.py
@@ -9,6 +9,7 @@ import typing_extensions
 
 import sleplet._mask_methods
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 import sleplet.slepian.region
 import sleplet.slepian.slepian_functions
@@ -74,6 +75,11 @@ class Fp(Coefficients):
                 self.slepian,
                 self.noise,
             )
+            # the noise is only defined up to the Shannon number
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                len(self.coefficients) - len(n_p),
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
diff --git a/src/sleplet/meshes/mesh_slepian_coefficients.py b/src/sleplet/meshes/mesh_slepian_coefficients.py
index 8a14276..2e1c3dc 100644
--- a/src/sleplet/meshes/mesh_slepian_coefficients.py
+++ b/src/sleplet/meshes/mesh_slepian_coefficients.py
@@ -8,6 +8,7 @@ import pydantic
 import typing_extensions
 
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 from sleplet.meshes.mesh_coefficients import MeshCoefficients
 from sleplet.meshes.mesh_slepian import MeshSlepian
@@ -39,6 +40,11 @@ class MeshSlepianCoefficients(MeshCoefficients):
                 self.coefficients,
                 self.noise,
             )
+            # the noise is only defined up to the Shannon number
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                len(self.coefficients) - len(n_p),
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
-- 
2.43.0


From ce00e7aafef4e6a928bd3ed65f42e1261412db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 19/35] fix: evaluate Slepian functions at the sample nearest
 to the angles

ssht's index helpers truncate, so that round-off sent exact sample points to
the previous sample.
---
 src/sleplet/slepian_methods.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 7c2cf46..b3841f0 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -160,8 +160,9 @@ def _compute_s_p_omega_prime(
 ) -> npt.NDArray[np.complex128]:
     """Pick out the desired angle from Sp(omega)."""
     sp_omega = compute_s_p_omega(L, slepian)
-    p = ssht.theta_to_index(beta, L, Method=sleplet._vars.SAMPLING_SCHEME)
-    q = ssht.phi_to_index(alpha, L, Method=sleplet._vars.SAMPLING_SCHEME)
+    thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
+    p = np.abs(thetas - beta).argmin()
+    q = np.cos(phis - alpha).argmax()
     sp_omega_prime = sp_omega[:, p, q]
     # pad with zeros so it has the expected shape
     boost = L**2 - slepian.N
-- 
2.43.0


From e979355ec841ac21de5fdc7e5e53f8578f970ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 20/35] fix: wrap around the longitude when looking for the
 nearest grid point

---
 src/sleplet/plot_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d9983a3..c7d7f3d 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -52,7 +52,8 @@ def _calc_nearest_grid_point(
     as the rotation such that the difference error is small.
     """
     thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
-    pix_j = np.abs(phis - alpha_pi_fraction * np.pi).argmin()
+    delta_phi = np.abs(phis - alpha_pi_fraction * np.pi) % (2 * np.pi)
+    pix_j = np.minimum(delta_phi, 2 * np.pi - delta_phi).argmin()
     pix_i = np.abs(thetas - beta_pi_fraction * np.pi).argmin()
     alpha, beta = phis[pix_j], thetas[pix_i]
     msg = f"grid point: (alpha, beta)=({alpha:e}, {beta:e})"
-- 
2.43.0


From 1f0eaace78b466424e11b86a087d564835ee7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 21/35] fix: start the mesh eigensolver from a fixed vector

Without one the solver starts from fresh entropy, so the basis functions (their
signs, and those of repeated eigenvalues) differed from one computation to the
next, and with them everything derived from them.
---
 src/sleplet/_mesh_methods.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index 36600d3..ef4f895 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -10,6 +10,7 @@ import tomli
 
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
+import sleplet._vars
 
 _data_path = pathlib.Path(__file__).resolve().parent / "_data"
 _logger = logging.getLogger(__name__)
@@ -100,6 +101,11 @@ def mesh_eigendecomposition(
             k=number_basis_functions,
             which="LM",
             sigma=0,
+            v0=np.random.default_rng(sleplet._vars.RANDOM_SEED).uniform(
+                -1,
+                1,
+                laplacian.shape[0],
+            ),
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-- 
2.43.0


From a69b786ece62148b621469307cf99046083d548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 22/35] fix: keep all mesh basis functions which share an
 eigenvalue

When the number of basis functions cuts through a set of functions sharing one
eigenvalue (as for 13 on the cube), the solver may return a function of a larger
eigenvalue instead.
---
 src/sleplet/_mesh_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index ef4f895..487f31d 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -96,9 +96,11 @@ def mesh_eigendecomposition(
         )
     except TypeError:
         laplacian = _mesh_laplacian(vertices, faces)
+        # a few functions more than needed, as otherwise the solver may miss one
+        # of a set which shares its eigenvalue, when the set is cut off at the end
         eigenvalues, eigenvectors = LA_sparse.eigsh(
             laplacian,
-            k=number_basis_functions,
+            k=min(number_basis_functions + 10, laplacian.shape[0] - 1),
             which="LM",
             sigma=0,
             v0=np.random.default_rng(sleplet._vars.RANDOM_SEED).uniform(
@@ -107,6 +109,8 @@ def mesh_eigendecomposition(
                 laplacian.shape[0],
             ),
         )
+        lowest = np.argsort(eigenvalues, kind="stable")[:number_basis_functions]
+        eigenvalues, eigenvectors = eigenvalues[lowest], eigenvectors[:, lowest]
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
         sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
-- 
2.43.0


From d45b42f79d861a9b775c30632b7e616a3ce52273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 23/35] fix: notice when the disk fills up while a solution is
 saved

numpy writes an array to a file through a buffer whose final flush goes
unchecked, so that a short file was taken for complete and renamed into place,
and every later attempt to load the solution failed.
---
 src/sleplet/_data/setup_pooch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index e3e19d8..1c98e17 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -1,3 +1,4 @@
+import io
 import logging
 import os
 import pathlib
@@ -104,8 +105,11 @@ def save_locally(filename: str, array: npt.NDArray[typing.Any]) -> None:
     save_path.mkdir(parents=True, exist_ok=True)
     partial = save_path / f".{filename}.{os.getpid()}-{threading.get_ident()}.part"
     try:
-        with partial.open("wb") as f:
-            np.save(f, array)
+        # written as bytes, since numpy does not notice when the disk fills up
+        # while it writes an array to a file itself
+        content = io.BytesIO()
+        np.save(content, array)
+        partial.write_bytes(content.getbuffer())
         partial.replace(save_path / filename)
     finally:
         partial.unlink(missing_ok=True)
-- 
2.43.0


From 921078dfeff30bf8f01a488e79965c24f423b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 24/35] fix: no shared memory left when a solve fails before
 its workers start

The second block of a mask could not be had, or NCPU was not a number: the
first block stayed behind.
---
 src/sleplet/meshes/mesh_slepian.py       | 18 +++++++--------
 src/sleplet/slepian/slepian_arbitrary.py | 28 +++++++++++++++---------
 src/sleplet/slepian/slepian_polar_cap.py | 18 +++++++--------
 3 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index eac86e3..ad3f344 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -100,6 +100,15 @@ class MeshSlepian:
             (self.mesh.mesh_eigenvalues.shape[0], self.mesh.mesh_eigenvalues.shape[0]),
         )
 
+        # split up L range to maximise efficiency
+        ncpu = int(os.getenv("NCPU", "4"))
+        msg = f"Number of CPU={ncpu}"
+        _logger.info(msg)
+        chunks = sleplet._parallel_methods.split_arr_into_chunks(
+            self.mesh.mesh_eigenvalues.shape[0],
+            ncpu,
+        )
+
         D_ext, shm_ext = sleplet._parallel_methods.create_shared_memory_array(D)
 
         def func(chunk: list[int]) -> None:
@@ -118,15 +127,6 @@ class MeshSlepian:
 
             sleplet._parallel_methods.free_shared_memory(shm_int)
 
-        # split up L range to maximise efficiency
-        ncpu = int(os.getenv("NCPU", "4"))
-        msg = f"Number of CPU={ncpu}"
-        _logger.info(msg)
-        chunks = sleplet._parallel_methods.split_arr_into_chunks(
-            self.mesh.mesh_eigenvalues.shape[0],
-            ncpu,
-        )
-
         try:
             # initialise pool and apply function, raises if a worker failed
             with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index e132233..629be95 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -114,8 +114,25 @@ class SlepianArbitrary(SlepianFunctions):
         D_r = np.zeros((self.L**2, self.L**2))
         D_i = np.zeros((self.L**2, self.L**2))
 
+        # split up L range to maximise efficiency
+        ncpu = int(os.getenv("NCPU", "4"))
+        msg = f"Number of CPU={ncpu}"
+        _logger.info(msg)
+        chunks = sleplet._parallel_methods.split_arr_into_chunks(
+            self.L**2,
+            ncpu,
+        )
+
         D_r_ext, shm_r_ext = sleplet._parallel_methods.create_shared_memory_array(D_r)
-        D_i_ext, shm_i_ext = sleplet._parallel_methods.create_shared_memory_array(D_i)
+        try:
+            (
+                D_i_ext,
+                shm_i_ext,
+            ) = sleplet._parallel_methods.create_shared_memory_array(D_i)
+        except OSError:
+            sleplet._parallel_methods.free_shared_memory(shm_r_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_r_ext)
+            raise
 
         def func(chunk: list[int]) -> None:
             """Calculate D matrix components for each chunk."""
@@ -137,15 +154,6 @@ class SlepianArbitrary(SlepianFunctions):
 
             sleplet._parallel_methods.free_shared_memory(shm_r_int, shm_i_int)
 
-        # split up L range to maximise efficiency
-        ncpu = int(os.getenv("NCPU", "4"))
-        msg = f"Number of CPU={ncpu}"
-        _logger.info(msg)
-        chunks = sleplet._parallel_methods.split_arr_into_chunks(
-            self.L**2,
-            ncpu,
-        )
-
         try:
             # initialise pool and apply function, raises if a worker failed
             with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index c492c49..ac8810e 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -183,6 +183,15 @@ class SlepianPolarCap(SlepianFunctions):
         Dm = np.zeros((self.L - m, self.L - m))
         lvec = np.arange(m, self.L)
 
+        # split up L range to maximise efficiency
+        ncpu = int(os.getenv("NCPU", "4"))
+        msg = f"Number of CPU={ncpu}"
+        _logger.info(msg)
+        chunks = sleplet._parallel_methods.split_arr_into_chunks(
+            self.L - m,
+            ncpu,
+        )
+
         Dm_ext, shm_ext = sleplet._parallel_methods.create_shared_memory_array(Dm)
 
         def func(chunk: list[int]) -> None:
@@ -202,15 +211,6 @@ class SlepianPolarCap(SlepianFunctions):
 
             sleplet._parallel_methods.free_shared_memory(shm_int)
 
-        # split up L range to maximise efficiency
-        ncpu = int(os.getenv("NCPU", "4"))
-        msg = f"Number of CPU={ncpu}"
-        _logger.info(msg)
-        chunks = sleplet._parallel_methods.split_arr_into_chunks(
-            self.L - m,
-            ncpu,
-        )
-
         try:
             # initialise pool and apply function, raises if a worker failed
             with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-- 
2.43.0


From af28c620a6552a6fe1ece5ea407b6e9209faeb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 25/35] fix: say that the degree of a spherical harmonic is out
 of range

The order was checked against the degree even though the degree had been
refused, so that the message was KeyError: 'ell'.
---
 src/sleplet/functions/spherical_harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/spherical_harmonic.py b/src/sleplet/functions/spherical_harmonic.py
index 1bc18d2..f320f0f 100644
--- a/src/sleplet/functions/spherical_harmonic.py
+++ b/src/sleplet/functions/spherical_harmonic.py
@@ -69,7 +69,7 @@ class SphericalHarmonic(Flm):
         v: int,
         info: pydantic.ValidationInfo,
     ) -> int:
-        if abs(v) > info.data["ell"]:
+        if "ell" in info.data and abs(v) > info.data["ell"]:
             msg = "the magnitude of m should be less than ell"
             raise ValueError(msg)
         return v
-- 
2.43.0


From 107a590e8534cc220260ac08d6aa99c5007e43da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 26/35] fix: identify a region from its current limits

The type and name of a region were those of its construction, so that after
an assignment of a limit (which is validated) functions were masked with the
new limits, but under the old name and as the old type of region.
---
 src/sleplet/slepian/region.py | 46 ++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/sleplet/slepian/region.py b/src/sleplet/slepian/region.py
index 3c9f1c3..3dc7649 100644
--- a/src/sleplet/slepian/region.py
+++ b/src/sleplet/slepian/region.py
@@ -37,14 +37,8 @@ class Region:
     theta_min: float = sleplet._vars.THETA_MIN_DEFAULT
     """For a limited latitude longitude region, set by the `THETA_MIN` environment
     variable."""
-    _name_ending: str = pydantic.Field(default="", init_var=False, repr=False)
-    _region_type: str = pydantic.Field(default="", init_var=False, repr=False)
 
     def __post_init__(self: typing_extensions.Self) -> None:
-        self._identify_region()
-
-    def _identify_region(self: typing_extensions.Self) -> None:
-        """Identify region type based on the angle inputs or a mask name."""
         msg = (
             "Slepian region values detected: "
             f"POLAR_GAP={self.gap}, "
@@ -55,42 +49,54 @@ class Region:
             f"SLEPIAN_MASK={self.mask_name}.",
         )
         _logger.info(msg)
+        self._identify_region()
+
+    @property
+    def _name_ending(self: typing_extensions.Self) -> str:
+        """The name of the region, which follows from its current limits."""
+        _, name_ending = self._identify_region()
+        return name_ending
+
+    @property
+    def _region_type(self: typing_extensions.Self) -> str:
+        """The type of the region, which follows from its current limits."""
+        region_type, _ = self._identify_region()
+        return region_type
+
+    def _identify_region(self: typing_extensions.Self) -> tuple[str, str]:
+        """Identify region type based on the angle inputs or a mask name."""
         if sleplet._bool_methods.is_polar_cap(
             self.phi_min,
             self.phi_max,
             self.theta_min,
             self.theta_max,
         ):
-            self._region_type = "polar"
-            self._name_ending = (
+            return "polar", (
                 f"polar{'_gap' if self.gap else ''}"
                 f"{sleplet._string_methods.angle_as_degree(self.theta_max)}"
             )
 
-        elif sleplet._bool_methods.is_limited_lat_lon(
+        if sleplet._bool_methods.is_limited_lat_lon(
             self.phi_min,
             self.phi_max,
             self.theta_min,
             self.theta_max,
         ):
-            self._region_type = "lim_lat_lon"
-            self._name_ending = (
+            return "lim_lat_lon", (
                 f"theta{sleplet._string_methods.angle_as_degree(self.theta_min)}"
                 f"-{sleplet._string_methods.angle_as_degree(self.theta_max)}"
                 f"_phi{sleplet._string_methods.angle_as_degree(self.phi_min)}"
                 f"-{sleplet._string_methods.angle_as_degree(self.phi_max)}"
             )
 
-        elif self.mask_name:
-            self._region_type = "arbitrary"
-            self._name_ending = self.mask_name
+        if self.mask_name:
+            return "arbitrary", self.mask_name
 
-        else:
-            msg = (
-                "need to specify either a polar cap, a limited latitude "
-                "longitude region, or a file with a mask",
-            )
-            raise AttributeError(msg)
+        msg = (
+            "need to specify either a polar cap, a limited latitude "
+            "longitude region, or a file with a mask",
+        )
+        raise AttributeError(msg)
 
     @pydantic.field_validator("phi_max")
     def _check_phi_max(
-- 
2.43.0


From 4966bb73a8c10793cd9a22e4483d437887604126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:46 +0000
Subject: [PATCH 27/35] fix: refuse wavelet parameters for which S2LET writes
 out of bounds

A negative j_min (reachable from the command line) corrupted the memory of the
process and B below 2 gave meaningless wavelets or an obscure error.
---
 src/sleplet/wavelet_methods.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index d4a9bb6..3194a71 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -9,6 +9,8 @@ import pyssht as ssht
 import sleplet._convolution_methods
 import sleplet.slepian_methods
 
+_B_MIN = 2
+
 
 def slepian_wavelet_forward(
     f_p: npt.NDArray[np.complex128 | np.float64],
@@ -141,6 +143,13 @@ def create_kappas(xlim: int, B: int, j_min: int) -> npt.NDArray[np.float64]:
     Returns:
         The Slepian wavelet generating functions.
     """
+    if B < _B_MIN:
+        msg = f"B should be at least {_B_MIN}"
+        raise ValueError(msg)
+    if j_min < 0:
+        # S2LET writes outside of its arrays
+        msg = "j_min cannot be negative"
+        raise ValueError(msg)
     kappa0, kappa = pys2let.axisym_wav_l(B, xlim, j_min)
     return np.concatenate((kappa0[np.newaxis], kappa.T))
 
-- 
2.43.0


From 9c26defe6c223557e1487681988ed52b008048a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 28/35] fix: an error message from the archive in place of its
 list of files is no reason to fail

Zenodo answers with an error message (too many requests, maintenance) or a
portal redirects elsewhere: pooch raises KeyError or ValueError then.
---
 src/sleplet/_data/setup_pooch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 1c98e17..baff04c 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -55,8 +55,9 @@ def _lazy_load_registry(
             )
             try:
                 archive.load_registry_from_doi()
-            except OSError as e:
-                # includes all the errors of the requests package
+            except (KeyError, OSError, ValueError) as e:
+                # includes all the errors of the requests package, and those of
+                # pooch for an answer which is not a list of the files
                 msg = f"https://doi.org/{_ZENODO_DATA_DOI} is not reachable: {e}"
                 _logger.warning(msg)
             # set once the registry is loaded as it may be in use by other threads
-- 
2.43.0


From b3cef9c436c3701b04a5ed183aca87de08ad0f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 29/35] fix: refuse a number of mesh basis functions which
 there are not

Since more functions than needed are asked of the solver, it no longer
refuses these itself.
---
 src/sleplet/_mesh_methods.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index 487f31d..4ded0f8 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -76,6 +76,12 @@ def mesh_eigendecomposition(
     # determine number of basis functions
     if number_basis_functions is None:
         number_basis_functions = vertices.shape[0] // 4
+    if not 0 < number_basis_functions < vertices.shape[0]:
+        msg = (
+            "the number of basis functions should be positive and less than the "
+            f"number of vertices, {vertices.shape[0]}, not {number_basis_functions}"
+        )
+        raise ValueError(msg)
     msg = (
         f"finding {number_basis_functions}/{vertices.shape[0]} "
         f"basis functions of {name} mesh",
-- 
2.43.0


From 9c916144246883d2c010526473c67043fbdb90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 30/35] fix: hide the faces outside of a mesh region also for
 large values

The value which marks them was not below the range of the colours of an
unnormalised field, or of an amplitude, beyond 1e5.
---
 src/sleplet/plotting/_create_plot_mesh.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sleplet/plotting/_create_plot_mesh.py b/src/sleplet/plotting/_create_plot_mesh.py
index de652d5..613f21a 100644
--- a/src/sleplet/plotting/_create_plot_mesh.py
+++ b/src/sleplet/plotting/_create_plot_mesh.py
@@ -57,10 +57,6 @@ class PlotMesh:
         vmin, vmax = self.f.min(), self.f.max()
         f = self._prepare_field(self.f)
 
-        if self.region:
-            # make plot area clearer
-            f = self._set_outside_region_to_minimum(f)
-
         # pick largest tick max value
         tick_mark = sleplet._plotly_methods.create_tick_mark(
             vmin,
@@ -68,6 +64,10 @@ class PlotMesh:
             amplitude=self.amplitude,
         )
 
+        if self.region:
+            # make plot area clearer
+            f = self._set_outside_region_to_minimum(f, tick_mark)
+
         data = [
             go.Mesh3d(
                 x=self.mesh.vertices[:, 0],
@@ -118,6 +118,7 @@ class PlotMesh:
     def _set_outside_region_to_minimum(
         self: typing_extensions.Self,
         f: npt.NDArray[np.float64],
+        tick_mark: float,
     ) -> npt.NDArray[np.float64]:
         """
         For the Slepian region set the outside area to negative infinity
@@ -126,4 +127,4 @@ class PlotMesh:
         region_on_faces = sleplet._mask_methods.convert_region_on_vertices_to_faces(
             self.mesh,
         )
-        return np.where(region_on_faces, f, _MESH_UNSEEN)
+        return np.where(region_on_faces, f, min(_MESH_UNSEEN, -2 * tick_mark))
-- 
2.43.0


From 34eb09874a912dbbcc073fb01baad5ba4b691be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 31/35] fix: refuse a region whose smallest angle is greater
 than its largest

---
 src/sleplet/slepian/region.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/slepian/region.py b/src/sleplet/slepian/region.py
index 3dc7649..f10b052 100644
--- a/src/sleplet/slepian/region.py
+++ b/src/sleplet/slepian/region.py
@@ -82,6 +82,9 @@ class Region:
             self.theta_min,
             self.theta_max,
         ):
+            if self.theta_min > self.theta_max or self.phi_min > self.phi_max:
+                msg = "the minimum of an angle cannot be greater than its maximum"
+                raise ValueError(msg)
             return "lim_lat_lon", (
                 f"theta{sleplet._string_methods.angle_as_degree(self.theta_min)}"
                 f"-{sleplet._string_methods.angle_as_degree(self.theta_max)}"
-- 
2.43.0


From 01531964a6bde8a110c3e5a8ea6ccf34e73a8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 32/35] fix: lost precision of polar cap matrices at high
 degrees

The terms of the Racah formula alternate and cancel, so that with floats the
Wigner 3j symbols lose all their digits by degree 100 and eigenvalues come out
wrong (2e-7 for L=64). The sum is exact now, and no slower.
---
 src/sleplet/slepian/slepian_polar_cap.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index ac8810e..94661f8 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -323,15 +323,16 @@ class SlepianPolarCap(SlepianFunctions):
 
             # sum is over all those t for which the
             # following factorials have non-zero arguments
+            # with exact numbers, as the terms cancel at high degrees
             s = sum(
-                (-1) ** t
-                / (
-                    gp.factorial(t)
-                    * gp.factorial(t - t1)
-                    * gp.factorial(t - t2)
-                    * gp.factorial(t3 - t)
-                    * gp.factorial(t4 - t)
-                    * gp.factorial(t5 - t)
+                gp.mpq(
+                    (-1) ** t,
+                    gp.fac(t)
+                    * gp.fac(t - t1)
+                    * gp.fac(t - t2)
+                    * gp.fac(t3 - t)
+                    * gp.fac(t4 - t)
+                    * gp.fac(t5 - t),
                 )
                 for t in range(tmin, tmax + 1)
             )
-- 
2.43.0


From 8db16af5e01b5de3e751c238f256d232f0c841d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 33/35] fix: keep the imaginary parts of complex fields on a
 mesh

The mesh transform and the mesh Slepian analyses accept complex fields, but
stored the coefficients in real arrays.
---
 src/sleplet/harmonic_methods.py                  |  7 +++++--
 .../meshes/_mesh_slepian_decomposition.py        | 16 ++++++++++------
 src/sleplet/slepian_methods.py                   |  2 +-
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/sleplet/harmonic_methods.py b/src/sleplet/harmonic_methods.py
index df1d8df..2d23d98 100644
--- a/src/sleplet/harmonic_methods.py
+++ b/src/sleplet/harmonic_methods.py
@@ -134,7 +134,7 @@ def compute_random_signal(
 def mesh_forward(
     mesh: "sleplet.meshes.mesh.Mesh",
     u: npt.NDArray[np.complex128 | np.float64],
-) -> npt.NDArray[np.float64]:
+) -> npt.NDArray[np.complex128 | np.float64]:
     """
     Compute the mesh forward transform from pixel space to Fourier space.
 
@@ -145,7 +145,10 @@ def mesh_forward(
     Returns:
         The basis functions of the mesh in Fourier space.
     """
-    u_i = np.zeros(mesh.mesh_eigenvalues.shape[0])
+    u_i = np.zeros(
+        mesh.mesh_eigenvalues.shape[0],
+        dtype=np.result_type(u, np.float64),
+    )
     for i, phi_i in enumerate(mesh.basis_functions):
         u_i[i] = sleplet._integration_methods.integrate_whole_mesh(
             mesh.vertices,
diff --git a/src/sleplet/meshes/_mesh_slepian_decomposition.py b/src/sleplet/meshes/_mesh_slepian_decomposition.py
index 9416019..9f2e355 100644
--- a/src/sleplet/meshes/_mesh_slepian_decomposition.py
+++ b/src/sleplet/meshes/_mesh_slepian_decomposition.py
@@ -26,7 +26,7 @@ class MeshSlepianDecomposition:
     def __post_init__(self: typing_extensions.Self) -> None:
         self._detect_method()
 
-    def decompose(self: typing_extensions.Self, rank: int) -> float:
+    def decompose(self: typing_extensions.Self, rank: int) -> complex:
         """Decompose the signal into its Slepian coefficients via the given method."""
         self._validate_rank(rank)
 
@@ -44,14 +44,18 @@ class MeshSlepianDecomposition:
     def decompose_all(
         self: typing_extensions.Self,
         n_coefficients: int,
-    ) -> npt.NDArray[np.float64]:
+    ) -> npt.NDArray[np.complex128 | np.float64]:
         """Decompose all ranks of the Slepian coefficients."""
-        coefficients = np.zeros(n_coefficients)
+        signal = self.u if self.u_i is None else self.u_i
+        coefficients = np.zeros(
+            n_coefficients,
+            dtype=np.result_type(signal, np.float64),
+        )
         for rank in range(n_coefficients):
             coefficients[rank] = self.decompose(rank)
         return coefficients
 
-    def _integrate_region(self: typing_extensions.Self, rank: int) -> float:
+    def _integrate_region(self: typing_extensions.Self, rank: int) -> complex:
         r"""
         F_{p} =
         \frac{1}{\lambda_{p}}
@@ -71,7 +75,7 @@ class MeshSlepianDecomposition:
         )
         return integration / self.mesh_slepian.slepian_eigenvalues[rank]
 
-    def _integrate_mesh(self: typing_extensions.Self, rank: int) -> float:
+    def _integrate_mesh(self: typing_extensions.Self, rank: int) -> complex:
         r"""
         F_{p} =
         \int\limits_{x} \dd{x}
@@ -88,7 +92,7 @@ class MeshSlepianDecomposition:
             s_p,
         )
 
-    def _harmonic_sum(self: typing_extensions.Self, rank: int) -> float:
+    def _harmonic_sum(self: typing_extensions.Self, rank: int) -> complex:
         r"""
         F_{p} =
         \sum\limits_{i=0}^{K}
diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index b3841f0..20559fc 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -176,7 +176,7 @@ def slepian_mesh_forward(
     u_i: npt.NDArray[np.complex128 | np.float64] | None = None,
     mask: bool = False,
     n_coeffs: int | None = None,
-) -> npt.NDArray[np.float64]:
+) -> npt.NDArray[np.complex128 | np.float64]:
     """
     Compute the Slepian forward transform for all coefficients on the mesh.
 
-- 
2.43.0


From c93a3874993107c0a59aad850da3cf558215015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 34/35] fix: threshold Slepian wavelet coefficients that are
 real without loss

The thresholded coefficients are complex and were stored in the real array.
---
 src/sleplet/noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 3384b8d..ead3954 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -175,6 +175,8 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
+    # the result is complex even if the coefficients are real
+    wav_coeffs = wav_coeffs.astype(np.complex128, copy=False)
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From 58ddaf3cba9d280d146b12cf5965d1ccfd5032bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 35/35] fix: mesh basis of meshes with several parts, or whose
 matrix is exactly singular

---
 src/sleplet/_mesh_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index 4ded0f8..4b0e657 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -108,7 +108,8 @@ def mesh_eigendecomposition(
             laplacian,
             k=min(number_basis_functions + 10, laplacian.shape[0] - 1),
             which="LM",
-            sigma=0,
+            # just below the spectrum, as the matrix is singular at zero
+            sigma=-0.01,
             v0=np.random.default_rng(sleplet._vars.RANDOM_SEED).uniform(
                 -1,
                 1,
-- 
2.43.0

