From 3b127a1890921a17a585a33c087436e2a103ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 01/26] fix: use scalar Legendre values in the polar cap
 Slepian matrix

Indexing the Legendre table with a boolean mask gave size-1 arrays, which
NumPy no longer assigns to matrix elements; every worker failed and the
matrix stayed zero.
---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 75c93eb21e3bc23b6b034a5d08d78cd8ca694c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 02/26] fix: raise worker failures when computing the Slepian
 matrices

The results of the thread pool were never consumed, so a failing worker
left rows of the matrix at zero, and the wrong eigensolutions were saved.
---
 src/sleplet/meshes/mesh_slepian.py       | 22 ++++++++++++----------
 src/sleplet/slepian/slepian_arbitrary.py | 22 ++++++++++++----------
 src/sleplet/slepian/slepian_polar_cap.py | 22 ++++++++++++----------
 3 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 10765fb..9d72165 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -128,16 +128,18 @@ class MeshSlepian:
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        D = D_ext.copy()
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
+        try:
+            # initialise pool and apply function, consuming
+            # the results so that a failing worker is raised
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            D = D_ext.copy()
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
         return D
 
     def _fill_D_elements(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..9852c62 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -145,16 +145,18 @@ class SlepianArbitrary(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        D = D_r_ext + 1j * D_i_ext
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_r_ext, shm_i_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_r_ext, shm_i_ext)
+        try:
+            # initialise pool and apply function, consuming
+            # the results so that a failing worker is raised
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            D = D_r_ext + 1j * D_i_ext
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_r_ext, shm_i_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_r_ext, shm_i_ext)
         return D
 
     def _matrix_helper(
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..b4ba767 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -217,16 +217,18 @@ class SlepianPolarCap(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
-
-        # retrieve from parallel function
-        Dm = Dm_ext * (-1) ** m / 2
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
+        try:
+            # initialise pool and apply function, consuming
+            # the results so that a failing worker is raised
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            Dm = Dm_ext * (-1) ** m / 2
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
         return Dm
 
     def _create_legendre_polynomials_table(
-- 
2.43.0


From 6abbb6aa70210ace1bc6234d47b1db174cbac26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 03/26] fix: write saved arrays atomically

An interrupted run left a partial file under the final name, which every
later run then failed to load.
---
 src/sleplet/_data/save_array.py              | 31 ++++++++++++++++++++
 src/sleplet/_mask_methods.py                 |  7 ++---
 src/sleplet/_mesh_methods.py                 |  8 ++---
 src/sleplet/meshes/mesh_slepian.py           | 12 ++++----
 src/sleplet/slepian/slepian_arbitrary.py     |  9 ++----
 src/sleplet/slepian/slepian_limit_lat_lon.py | 10 ++-----
 src/sleplet/slepian/slepian_polar_cap.py     | 11 +++----
 7 files changed, 52 insertions(+), 36 deletions(-)
 create mode 100644 src/sleplet/_data/save_array.py

diff --git a/src/sleplet/_data/save_array.py b/src/sleplet/_data/save_array.py
new file mode 100644
index 0000000..c7cf659
--- /dev/null
+++ b/src/sleplet/_data/save_array.py
@@ -0,0 +1,31 @@
+import os
+import typing
+import uuid
+
+import numpy as np
+import numpy.typing as npt
+import platformdirs
+
+
+def save_array(filename: str, array: npt.NDArray[typing.Any]) -> None:
+    """
+    Save an array in the data folder.
+
+    The file only appears under its name once it is complete, so an
+    interrupted run never leaves a partial file to be loaded later.
+
+    Args:
+        filename: Name of the file within the data folder
+        array: The array to save
+    """
+    save_path = platformdirs.user_data_path()
+    save_path.mkdir(parents=True, exist_ok=True)
+    temporary = save_path / f".{uuid.uuid4().hex}.tmp"
+    try:
+        with temporary.open("wb") as f:
+            np.save(f, array)
+            f.flush()
+            os.fsync(f.fileno())
+        temporary.replace(save_path / filename)
+    finally:
+        temporary.unlink(missing_ok=True)
diff --git a/src/sleplet/_mask_methods.py b/src/sleplet/_mask_methods.py
index efb1536..95b2b49 100644
--- a/src/sleplet/_mask_methods.py
+++ b/src/sleplet/_mask_methods.py
@@ -1,15 +1,14 @@
 import logging
 import os
-import pathlib
 import typing
 
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 
 import pyssht as ssht
 
 import sleplet._data.create_earth_flm
+import sleplet._data.save_array
 import sleplet._data.setup_pooch
 import sleplet._vars
 import sleplet.harmonic_methods
@@ -201,7 +200,5 @@ def create_mask(L: int, mask_name: str) -> npt.NDArray[np.float64]:
     else:
         msg = f"Mask name {mask_name} not recognised"
         raise ValueError(msg)
-    save_path = platformdirs.user_data_path()
-    pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-    np.save(save_path / f"slepian_masks_{mask_name}", mask)
+    sleplet._data.save_array.save_array(f"slepian_masks_{mask_name}", mask)
     return mask
diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index d461d3f..0a94716 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -5,10 +5,10 @@ import typing
 import igl
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 import scipy.sparse.linalg as LA_sparse  # noqa: N812
 import tomli
 
+import sleplet._data.save_array
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
 
@@ -104,10 +104,8 @@ def mesh_eigendecomposition(
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors)
+        sleplet._data.save_array.save_array(eval_loc, eigenvalues)
+        sleplet._data.save_array.save_array(evec_loc, eigenvectors)
     return eigenvalues, eigenvectors, number_basis_functions
 
 
diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 9d72165..d831175 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -3,16 +3,15 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
 import sleplet._array_methods
+import sleplet._data.save_array
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
 import sleplet._parallel_methods
@@ -88,10 +87,11 @@ class MeshSlepian:
             self.slepian_eigenvalues,
             self.slepian_functions,
         ) = self._clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, self.slepian_eigenvalues)
-        np.save(save_path / evec_loc, self.slepian_functions[: self.N])
+        sleplet._data.save_array.save_array(eval_loc, self.slepian_eigenvalues)
+        sleplet._data.save_array.save_array(
+            evec_loc,
+            self.slepian_functions[: self.N],
+        )
 
     def _create_D_matrix(  # noqa: N802
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 9852c62..aec3d21 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -3,18 +3,17 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
 import pyssht as ssht
 
 import sleplet._array_methods
+import sleplet._data.save_array
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
 import sleplet._mask_methods
@@ -96,10 +95,8 @@ class SlepianArbitrary(SlepianFunctions):
             eigenvalues,
             eigenvectors,
         ) = sleplet._slepian_arbitrary_methods.clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[: self.N])
+        sleplet._data.save_array.save_array(eval_loc, eigenvalues)
+        sleplet._data.save_array.save_array(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_D_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 78c99a9..82ed0b0 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -1,18 +1,16 @@
 """Contains the `SlepianLimitLatLon` class."""
 
-import pathlib
-
 import numba
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
 import pyssht as ssht
 
 import sleplet._array_methods
+import sleplet._data.save_array
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
 import sleplet._validation
@@ -76,10 +74,8 @@ class SlepianLimitLatLon(SlepianFunctions):
         except TypeError:
             K = self._create_K_matrix()
             eigenvalues, eigenvectors = self._clean_evals_and_evecs(LA.eigh(K))
-            save_path = platformdirs.user_data_path()
-            pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-            np.save(save_path / eval_loc, eigenvalues)
-            np.save(save_path / evec_loc, eigenvectors[: self.N])
+            sleplet._data.save_array.save_array(eval_loc, eigenvalues)
+            sleplet._data.save_array.save_array(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_K_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index b4ba767..2005956 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -4,18 +4,17 @@ import concurrent.futures
 import dataclasses
 import logging
 import os
-import pathlib
 
 import gmpy2 as gp
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
 import pyssht as ssht
 
+import sleplet._data.save_array
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
 import sleplet._parallel_methods
@@ -130,11 +129,9 @@ class SlepianPolarCap(SlepianFunctions):
             self.order,
         ) = self._sort_all_evals_and_evecs(evals_all, evecs_all, emm)
         limit = self.N if self.L > _L_SAVE_ALL else None
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[:limit])
-        np.save(save_path / order_loc, self.order)
+        sleplet._data.save_array.save_array(eval_loc, eigenvalues)
+        sleplet._data.save_array.save_array(evec_loc, eigenvectors[:limit])
+        sleplet._data.save_array.save_array(order_loc, self.order)
         return eigenvalues, eigenvectors
 
     def _solve_eigenproblem_order(
-- 
2.43.0


From 92679fe9974d5d42cb61a8cf9447dca95557bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 04/26] fix: only share the data source once its registry is
 loaded

A failed registry download raised once and then left an empty registry
behind, as did a second thread during the download. Without a connection
the local files are now used from the first call onwards.
---
 src/sleplet/_data/setup_pooch.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 4b2bd7c..1c675c2 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -4,6 +4,7 @@ import typing
 
 import platformdirs
 import pooch
+import requests
 
 _logger = logging.getLogger(__name__)
 
@@ -42,13 +43,19 @@ def _lazy_load_registry(
         """
         global _POOCH  # noqa: PLW0603
         if _POOCH is None:
-            _POOCH = pooch.create(
+            data_source = pooch.create(
                 path=pooch.os_cache("sleplet"),
                 base_url=f"doi:{_ZENODO_DATA_DOI}/",
                 registry=None,
                 retry_if_failed=_POOCH_RETRY,
             )
-            _POOCH.load_registry_from_doi()
+            try:
+                data_source.load_registry_from_doi()
+            except requests.RequestException:
+                msg = f"Unable to reach {_ZENODO_DATA_DOI}, using local files only"
+                _logger.warning(msg)
+            # only share the data source once the registry has been loaded
+            _POOCH = data_source
         return func(*args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 461320c03088a0edf1c0e95f52909a695063ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 05/26] fix: MeshNoiseField looks up MeshField in its own
 module

Constructing it always raised an AttributeError.
---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From 99dc5b5c0b413f4383f0319371e71c1db1467752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 06/26] fix: the identity function is not real

All coefficients equal to one do not satisfy the conjugate symmetry of a
real signal, so the reality flag gave a wrong field.
---
 src/sleplet/functions/identity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/identity.py b/src/sleplet/functions/identity.py
index d930104..55366cc 100644
--- a/src/sleplet/functions/identity.py
+++ b/src/sleplet/functions/identity.py
@@ -28,7 +28,7 @@ class Identity(Flm):
         )
 
     def _set_reality(self: typing_extensions.Self) -> bool:
-        return True
+        return False
 
     def _set_spin(self: typing_extensions.Self) -> int:
         return 0
-- 
2.43.0


From 16e79163f6e371a13d76fda5476817e1fc68967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 07/26] fix: keep Slepian wavelet coefficients aligned with
 their wavelets

A scale on which the signal vanishes was dropped, so the inverse used the
wrong wavelets for the scales after it.
---
 src/sleplet/wavelet_methods.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..3ad2ffc 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -26,14 +26,15 @@ def slepian_wavelet_forward(
     Returns:
         The Slepian wavelets coefficients of the signal.
     """
-    return find_non_zero_wavelet_coefficients(
-        sleplet._convolution_methods.sifting_convolution(
-            wavelets,
-            f_p,
-            shannon=shannon,
-        ),
-        axis=1,
+    wav_coeffs = sleplet._convolution_methods.sifting_convolution(
+        wavelets,
+        f_p,
+        shannon=shannon,
     )
+    # only drop the scales beyond the Shannon number, the
+    # others must stay aligned with their wavelets
+    scales = np.flatnonzero(wavelets[:, :shannon].any(axis=1))
+    return wav_coeffs[: scales.max(initial=-1) + 1]
 
 
 def slepian_wavelet_inverse(
-- 
2.43.0


From 2a89a9e27fa2ec40911891810945f75f7c05a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 08/26] fix: hard thresholding leaves its input unchanged

---
 src/sleplet/noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 3384b8d..60e4fe6 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -141,6 +141,7 @@ def harmonic_hard_thresholding(
         The thresholded wavelet coefficients.
     """
     _logger.info("begin harmonic hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs[1:]):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs) - 1}"
         _logger.info(msg)
@@ -175,6 +176,7 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
@@ -328,6 +330,7 @@ def slepian_mesh_hard_thresholding(
         The thresholded wavelet coefficients of the mesh.
     """
     _logger.info("begin Slepian mesh hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From 771ab7b9137910a3596cc38e8b6df21dcf68c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 09/26] fix: count both caps in the area of a polar gap region

The Shannon number was half of the sum of the eigenvalues.
---
 src/sleplet/slepian/slepian_polar_cap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 2005956..b10a9ce 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -57,7 +57,9 @@ class SlepianPolarCap(SlepianFunctions):
         return sleplet._mask_methods.create_mask_region(self.L, self.region)
 
     def _calculate_area(self: typing_extensions.Self) -> float:
-        return 2 * np.pi * (1 - np.cos(self.theta_max))
+        # a polar gap region consists of two caps
+        caps = 2 if self.gap else 1
+        return min(caps * 2 * np.pi * (1 - np.cos(self.theta_max)), 4 * np.pi)
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
-- 
2.43.0


From 7fea5304ad8226493d84ec2da07d0cc71ef249db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 10/26] fix: distinguish fractional arguments above one in
 filenames

1.5 and 3 gave the same name, so one figure overwrote the other.
---
 src/sleplet/_string_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 31cdced..7a48b6e 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -29,7 +29,7 @@ def filename_args(value: float, arg_name: str) -> str:
     filename = "_"
     num, dem = _get_angle_num_dem(value)
     filename += f"{num}{arg_name}"
-    if abs(value) < 1 and value != 0:
+    if dem != 1:
         filename += f"{dem}"
     return filename
 
-- 
2.43.0


From d3f4e906e1178e3a8bfc3f3cbce159042b40942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 11/26] fix: compute the same mesh basis functions on every run

The random starting vector changed their signs, so saved Slepian functions
could belong to another basis than the one which was saved or recomputed.
---
 src/sleplet/_mesh_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index 0a94716..ce70dd2 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -11,6 +11,7 @@ import tomli
 import sleplet._data.save_array
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
+import sleplet._vars
 
 _data_path = pathlib.Path(__file__).resolve().parent / "_data"
 _logger = logging.getLogger(__name__)
@@ -101,6 +102,9 @@ def mesh_eigendecomposition(
             k=number_basis_functions,
             which="LM",
             sigma=0,
+            v0=np.random.default_rng(
+                sleplet._vars.RANDOM_SEED,
+            ).standard_normal(vertices.shape[0]),
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-- 
2.43.0


From 607ba65480fa985ca187fb111cdea3121db0e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 12/26] fix: single order of a polar cap after its
 eigensolutions were saved

Above the limit up to which all eigenvectors are saved, selecting an order
from the files raised an IndexError.
---
 src/sleplet/slepian/slepian_polar_cap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index b10a9ce..bcf8543 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -102,6 +102,9 @@ class SlepianPolarCap(SlepianFunctions):
         orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
 
         if self.order is not None:
+            if len(eigenvectors) < len(orders):
+                # not every eigenvector of the given order has been saved
+                return self._solve_eigenproblem_order(self.order)
             idx = np.where(orders == self.order)
             return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
-- 
2.43.0


From 20a68473205fcb7a90dba309c1528d82e0a006ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 13/26] fix: do not share saved eigensolutions between
 different angles

The angles in the filename are rounded to a degree, so two regions with the
same Shannon number loaded the eigensolutions of each other.
---
 src/sleplet/slepian/region.py                | 10 ++++++++++
 src/sleplet/slepian/slepian_limit_lat_lon.py |  5 ++---
 src/sleplet/slepian/slepian_polar_cap.py     |  5 ++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sleplet/slepian/region.py b/src/sleplet/slepian/region.py
index 3c9f1c3..c982611 100644
--- a/src/sleplet/slepian/region.py
+++ b/src/sleplet/slepian/region.py
@@ -2,6 +2,7 @@
 
 import logging
 
+import numpy as np
 import pydantic
 import typing_extensions
 
@@ -92,6 +93,15 @@ class Region:
             )
             raise AttributeError(msg)
 
+    def _create_eigensolutions_ending(self: typing_extensions.Self) -> str:
+        """Name ending which tells apart angles rounding to the same degree."""
+        degrees = np.rad2deg(
+            [self.theta_min, self.theta_max, self.phi_min, self.phi_max],
+        )
+        if np.allclose(degrees, degrees.round(), rtol=0, atol=1e-9):
+            return self._name_ending
+        return "_".join([self._name_ending, *(repr(float(d)) for d in degrees)])
+
     @pydantic.field_validator("phi_max")
     def _check_phi_max(
         cls,
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 82ed0b0..35bf65b 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -55,9 +55,8 @@ class SlepianLimitLatLon(SlepianFunctions):
         )
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
-        return (
-            f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
-        )
+        ending = self.region._create_eigensolutions_ending()
+        return f"slepian_eigensolutions_D_{ending}_L{self.L}_N{self.N}"
 
     def _solve_eigenproblem(
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index bcf8543..4a1c456 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -62,9 +62,8 @@ class SlepianPolarCap(SlepianFunctions):
         return min(caps * 2 * np.pi * (1 - np.cos(self.theta_max)), 4 * np.pi)
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
-        return (
-            f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
-        )
+        ending = self.region._create_eigensolutions_ending()
+        return f"slepian_eigensolutions_D_{ending}_L{self.L}_N{self.N}"
 
     def _solve_eigenproblem(
         self: typing_extensions.Self,
-- 
2.43.0


From f75903f8ff8749c178a63235072972475ac2328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 14/26] fix: reject mesh ranks beyond the number of basis
 functions

A rank equal to the limit was accepted and then raised an IndexError; the
check was never called for the Slepian functions.
---
 src/sleplet/meshes/mesh_basis_functions.py   | 4 ++--
 src/sleplet/meshes/mesh_slepian_functions.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sleplet/meshes/mesh_basis_functions.py b/src/sleplet/meshes/mesh_basis_functions.py
index 444cb0b..849fd20 100644
--- a/src/sleplet/meshes/mesh_basis_functions.py
+++ b/src/sleplet/meshes/mesh_basis_functions.py
@@ -59,8 +59,8 @@ class MeshBasisFunctions(MeshHarmonicCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
diff --git a/src/sleplet/meshes/mesh_slepian_functions.py b/src/sleplet/meshes/mesh_slepian_functions.py
index db69bad..ac51036 100644
--- a/src/sleplet/meshes/mesh_slepian_functions.py
+++ b/src/sleplet/meshes/mesh_slepian_functions.py
@@ -23,6 +23,7 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
     selects a given Slepian function from the spectrum (p in the papers)."""
 
     def __post_init__(self: typing_extensions.Self) -> None:
+        self._validate_rank()
         super().__post_init__()
 
     def _create_coefficients(
@@ -62,8 +63,8 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
-- 
2.43.0


From 0f3ff93a82ae9f2485bb82881b08d14250b5a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 15/26] fix: find the maximum amplitude of a spin signal

The inverse transform ignored the spin, so it was not the amplitude of the
field which is plotted.
---
 src/sleplet/plot_methods.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d85343a..56cf53c 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -79,18 +79,7 @@ def find_max_amplitude(
         The maximum amplitude value.
     """
     # compute inverse transform
-    if hasattr(function, "slepian"):
-        field = sleplet.slepian_methods.slepian_inverse(
-            function.coefficients,
-            function.L,
-            function.slepian,
-        )
-    else:
-        field = ssht.inverse(
-            function.coefficients,
-            function.L,
-            Method=sleplet._vars.SAMPLING_SCHEME,
-        )
+    field = _coefficients_to_field_sphere(function, function.coefficients)
 
     # find resolution of final plot for boosting if necessary
     resolution = calc_plot_resolution(function.L) if upsample else function.L
-- 
2.43.0


From 6b676fa7e7141e1a8590b3441d87821ad209a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 16/26] fix: normalise plots of fields with a small amplitude

Fields below the absolute tolerance were taken to be constant and left the
range from 0 to 1.
---
 src/sleplet/plot_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index 56cf53c..1f9eba6 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -146,7 +146,7 @@ def _normalise_function(
         # if all 0, set to 0
         return (f + 0.5).astype(np.float64)
     # if all non-zero, set to 1 otherwise scale from [0, 1]
-    return f / f.max() if np.allclose(f, f.max()) else (f - f.min()) / np.ptp(f)
+    return f / f.max() if np.allclose(f, f.max(), atol=0) else (f - f.min()) / np.ptp(f)
 
 
 def _boost_field(  # noqa: PLR0913
-- 
2.43.0


From addbb8d2b566c4a06a5048fcd559a26b182a7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 17/26] fix: declare the fields of the arbitrary Slepian region

---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index aec3d21..1940207 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -40,6 +40,11 @@ class SlepianArbitrary(SlepianFunctions):
         init_var=False,
         repr=False,
     )
+    _fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
 
     def __post_init__(self: typing_extensions.Self) -> None:
         self._resolution = _SAMPLES * self.L
@@ -104,7 +109,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From 77b61963217cedc390cca3462fa7edc98ab06033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 18/26] fix: add noise to zero padded Slepian coefficients

---
 src/sleplet/functions/fp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sleplet/functions/fp.py b/src/sleplet/functions/fp.py
index 093c1eb..20df057 100644
--- a/src/sleplet/functions/fp.py
+++ b/src/sleplet/functions/fp.py
@@ -9,6 +9,7 @@ import typing_extensions
 
 import sleplet._mask_methods
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 import sleplet.slepian.region
 import sleplet.slepian.slepian_functions
@@ -74,6 +75,11 @@ class Fp(Coefficients):
                 self.slepian,
                 self.noise,
             )
+            # the noise covers the coefficients up to the Shannon number
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                self.coefficients.shape[0] - n_p.shape[0],
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
-- 
2.43.0


From 056ac5444ba833da7b72b4dbfd777f8f498efbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 19/26] fix: add noise to mesh Slepian wavelets

---
 src/sleplet/meshes/mesh_slepian_coefficients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sleplet/meshes/mesh_slepian_coefficients.py b/src/sleplet/meshes/mesh_slepian_coefficients.py
index 8a14276..c6cde30 100644
--- a/src/sleplet/meshes/mesh_slepian_coefficients.py
+++ b/src/sleplet/meshes/mesh_slepian_coefficients.py
@@ -8,6 +8,7 @@ import pydantic
 import typing_extensions
 
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 from sleplet.meshes.mesh_coefficients import MeshCoefficients
 from sleplet.meshes.mesh_slepian import MeshSlepian
@@ -39,6 +40,11 @@ class MeshSlepianCoefficients(MeshCoefficients):
                 self.coefficients,
                 self.noise,
             )
+            # the noise covers the coefficients up to the Shannon number
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                self.coefficients.shape[0] - n_p.shape[0],
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
-- 
2.43.0


From 2f3d46c3706b6a20e9f5d75c6c6ce924621446ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 20/26] fix: report a failed write of the end of a saved array

---
 src/sleplet/_data/save_array.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_data/save_array.py b/src/sleplet/_data/save_array.py
index c7cf659..354c304 100644
--- a/src/sleplet/_data/save_array.py
+++ b/src/sleplet/_data/save_array.py
@@ -1,3 +1,4 @@
+import io
 import os
 import typing
 import uuid
@@ -18,12 +19,17 @@ def save_array(filename: str, array: npt.NDArray[typing.Any]) -> None:
         filename: Name of the file within the data folder
         array: The array to save
     """
+    # numpy does not report when the end of an array fails to be written
+    # to a file, so serialise in memory and let python write the bytes
+    buffer = io.BytesIO()
+    np.save(buffer, array)
+
     save_path = platformdirs.user_data_path()
     save_path.mkdir(parents=True, exist_ok=True)
     temporary = save_path / f".{uuid.uuid4().hex}.tmp"
     try:
         with temporary.open("wb") as f:
-            np.save(f, array)
+            f.write(buffer.getbuffer())
             f.flush()
             os.fsync(f.fileno())
         temporary.replace(save_path / filename)
-- 
2.43.0


From 64f1e44339d8292987a9f459a8279ea1814579fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:41 +0000
Subject: [PATCH 21/26] fix: evaluate Slepian functions at the requested point
 when translating

---
 src/sleplet/slepian_methods.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 7c2cf46..86dda62 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -158,11 +158,9 @@ def _compute_s_p_omega_prime(
     beta: float,
     slepian: SlepianFunctions,
 ) -> npt.NDArray[np.complex128]:
-    """Pick out the desired angle from Sp(omega)."""
-    sp_omega = compute_s_p_omega(L, slepian)
-    p = ssht.theta_to_index(beta, L, Method=sleplet._vars.SAMPLING_SCHEME)
-    q = ssht.phi_to_index(alpha, L, Method=sleplet._vars.SAMPLING_SCHEME)
-    sp_omega_prime = sp_omega[:, p, q]
+    """Evaluate Sp(omega) at the desired angle."""
+    ylm = ssht.create_ylm(beta, alpha, L).reshape(-1)
+    sp_omega_prime = slepian.eigenvectors[: slepian.N] @ ylm
     # pad with zeros so it has the expected shape
     boost = L**2 - slepian.N
     return sleplet.harmonic_methods._boost_coefficient_resolution(sp_omega_prime, boost)
-- 
2.43.0


From be57956be9e13011fc95a623964720e6d89f6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 22/26] fix: accept the styles of annotations in sphere plots

---
 src/sleplet/_plotly_methods.py              | 2 +-
 src/sleplet/_scripts/plotting_on_sphere.py  | 6 +++++-
 src/sleplet/plotting/_create_plot_sphere.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_plotly_methods.py b/src/sleplet/_plotly_methods.py
index a1f3381..1a83873 100644
--- a/src/sleplet/_plotly_methods.py
+++ b/src/sleplet/_plotly_methods.py
@@ -32,7 +32,7 @@ def create_camera(  # noqa: PLR0913
 def create_layout(
     camera: go.layout.scene.Camera,
     *,
-    annotations: list[dict[str, float | int]] | None = None,
+    annotations: list[dict[str, float | int | str]] | None = None,
 ) -> go.Layout:
     """Create the default plotly layout."""
     return go.Layout(
diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 1b0d983..3fab3bb 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -302,7 +302,11 @@ def _translation_helper(
     alpha_pi_frac: float,
     beta_pi_frac: float,
     shannon: int | None,
-) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int]]:
+) -> tuple[
+    npt.NDArray[np.complex128 | np.float64],
+    str,
+    dict[str, float | int | str],
+]:
     """Perform the translation specific steps."""
     msg = f"angles: (alpha, beta) = ({alpha_pi_frac}, {beta_pi_frac})"
     _logger.info(msg)
diff --git a/src/sleplet/plotting/_create_plot_sphere.py b/src/sleplet/plotting/_create_plot_sphere.py
index 933b60b..87b384e 100644
--- a/src/sleplet/plotting/_create_plot_sphere.py
+++ b/src/sleplet/plotting/_create_plot_sphere.py
@@ -32,7 +32,9 @@ class PlotSphere:
     _: dataclasses.KW_ONLY
     amplitude: float | None = None
     """Whether to customise the amplitude range of the colour bar."""
-    annotations: list[dict[str, float | int]] = pydantic.Field(default_factory=list)
+    annotations: list[dict[str, float | int | str]] = pydantic.Field(
+        default_factory=list,
+    )
     """Whether to display any annotations on the surface plot or not."""
     normalise: bool = True
     """Whether to normalise the plot or not."""
-- 
2.43.0


From 21d0c7272a1944bbaa73ef775cfd15e3186df3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 23/26] fix: do not rotate Slepian coefficients convolved with
 the Earth

---
 src/sleplet/_scripts/plotting_on_sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 3fab3bb..00a0222 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -231,8 +231,8 @@ def plot(  # noqa: PLR0913
             filename,
         )
 
-    # rotate plot of Earth
-    if "earth" in filename:
+    # rotate plot of Earth, Slepian coefficients cannot be rotated
+    if "earth" in filename and not hasattr(f, "slepian"):
         match earth_view:
             case "africa":
                 coefficients = sleplet.harmonic_methods.rotate_earth_to_africa(
-- 
2.43.0


From 88bbfbd9ddf5d68899831982a6b06a97f91bb20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 24/26] fix: keep the imaginary part when thresholding real
 Slepian wavelet coefficients

---
 src/sleplet/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 60e4fe6..7df0acc 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -176,7 +176,8 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
-    wav_coeffs = wav_coeffs.copy()
+    # the thresholded coefficients are complex even when the inputs are real
+    wav_coeffs = wav_coeffs.astype(np.complex128)
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From b82961a7a9e8e56cc46361de769a46f5428948b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 25/26] fix: reject regions whose lower limits exceed the upper
 ones

---
 src/sleplet/slepian/region.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sleplet/slepian/region.py b/src/sleplet/slepian/region.py
index c982611..1542d4a 100644
--- a/src/sleplet/slepian/region.py
+++ b/src/sleplet/slepian/region.py
@@ -122,6 +122,7 @@ class Region:
     def _check_phi_min(
         cls,
         v: float,
+        info: pydantic.ValidationInfo,
     ) -> float:
         if v < sleplet._vars.PHI_MIN_DEFAULT:
             msg = "phi_min cannot be negative"
@@ -132,6 +133,9 @@ class Region:
                 f"{sleplet._string_methods.multiples_of_pi(sleplet._vars.PHI_MAX_DEFAULT)}"
             )
             raise ValueError(msg)
+        if v > info.data.get("phi_max", v):
+            msg = "phi_min cannot be greater than phi_max"
+            raise ValueError(msg)
         return v
 
     @pydantic.field_validator("theta_max")
@@ -154,6 +158,7 @@ class Region:
     def _check_theta_min(
         cls,
         v: float,
+        info: pydantic.ValidationInfo,
     ) -> float:
         if v < sleplet._vars.THETA_MIN_DEFAULT:
             msg = "theta_min cannot be negative"
@@ -164,4 +169,7 @@ class Region:
                 f"{sleplet._string_methods.multiples_of_pi(sleplet._vars.THETA_MAX_DEFAULT)}"
             )
             raise ValueError(msg)
+        if v > info.data.get("theta_max", v):
+            msg = "theta_min cannot be greater than theta_max"
+            raise ValueError(msg)
         return v
-- 
2.43.0


From 0058b1f420a94a6f58892ac56dfb42a64b8d46f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 26/26] fix: keep the imaginary part in the transforms of
 complex fields on meshes

---
 src/sleplet/_integration_methods.py              |  4 ++--
 src/sleplet/harmonic_methods.py                  |  7 +++++--
 .../meshes/_mesh_slepian_decomposition.py        | 16 ++++++++++------
 src/sleplet/slepian_methods.py                   |  2 +-
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/sleplet/_integration_methods.py b/src/sleplet/_integration_methods.py
index bd518cf..6e13017 100644
--- a/src/sleplet/_integration_methods.py
+++ b/src/sleplet/_integration_methods.py
@@ -44,7 +44,7 @@ def integrate_whole_mesh(
     vertices: npt.NDArray[np.float64],  # noqa: ARG001
     faces: npt.NDArray[np.int_],  # noqa: ARG001
     *functions: npt.NDArray[np.complex128 | np.float64],
-) -> float:
+) -> complex:
     """Compute the integral of functions on the vertices."""
     multiplied_inputs = _multiply_args(*functions)
     return multiplied_inputs.sum()
@@ -55,7 +55,7 @@ def integrate_region_mesh(
     vertices: npt.NDArray[np.float64],  # noqa: ARG001
     faces: npt.NDArray[np.int_],  # noqa: ARG001
     *functions: npt.NDArray[np.complex128 | np.float64],
-) -> float:
+) -> complex:
     """Compute the integral of a region of functions on the vertices."""
     multiplied_inputs = _multiply_args(*functions)
     return (multiplied_inputs * mask).sum()
diff --git a/src/sleplet/harmonic_methods.py b/src/sleplet/harmonic_methods.py
index df1d8df..8184290 100644
--- a/src/sleplet/harmonic_methods.py
+++ b/src/sleplet/harmonic_methods.py
@@ -134,7 +134,7 @@ def compute_random_signal(
 def mesh_forward(
     mesh: "sleplet.meshes.mesh.Mesh",
     u: npt.NDArray[np.complex128 | np.float64],
-) -> npt.NDArray[np.float64]:
+) -> npt.NDArray[np.complex128 | np.float64]:
     """
     Compute the mesh forward transform from pixel space to Fourier space.
 
@@ -145,7 +145,10 @@ def mesh_forward(
     Returns:
         The basis functions of the mesh in Fourier space.
     """
-    u_i = np.zeros(mesh.mesh_eigenvalues.shape[0])
+    u_i = np.zeros(
+        mesh.mesh_eigenvalues.shape[0],
+        dtype=np.complex128 if np.iscomplexobj(u) else np.float64,
+    )
     for i, phi_i in enumerate(mesh.basis_functions):
         u_i[i] = sleplet._integration_methods.integrate_whole_mesh(
             mesh.vertices,
diff --git a/src/sleplet/meshes/_mesh_slepian_decomposition.py b/src/sleplet/meshes/_mesh_slepian_decomposition.py
index 9416019..da3b359 100644
--- a/src/sleplet/meshes/_mesh_slepian_decomposition.py
+++ b/src/sleplet/meshes/_mesh_slepian_decomposition.py
@@ -26,7 +26,7 @@ class MeshSlepianDecomposition:
     def __post_init__(self: typing_extensions.Self) -> None:
         self._detect_method()
 
-    def decompose(self: typing_extensions.Self, rank: int) -> float:
+    def decompose(self: typing_extensions.Self, rank: int) -> complex:
         """Decompose the signal into its Slepian coefficients via the given method."""
         self._validate_rank(rank)
 
@@ -44,14 +44,18 @@ class MeshSlepianDecomposition:
     def decompose_all(
         self: typing_extensions.Self,
         n_coefficients: int,
-    ) -> npt.NDArray[np.float64]:
+    ) -> npt.NDArray[np.complex128 | np.float64]:
         """Decompose all ranks of the Slepian coefficients."""
-        coefficients = np.zeros(n_coefficients)
+        signal = self.u if self.u_i is None else self.u_i
+        coefficients = np.zeros(
+            n_coefficients,
+            dtype=np.complex128 if np.iscomplexobj(signal) else np.float64,
+        )
         for rank in range(n_coefficients):
             coefficients[rank] = self.decompose(rank)
         return coefficients
 
-    def _integrate_region(self: typing_extensions.Self, rank: int) -> float:
+    def _integrate_region(self: typing_extensions.Self, rank: int) -> complex:
         r"""
         F_{p} =
         \frac{1}{\lambda_{p}}
@@ -71,7 +75,7 @@ class MeshSlepianDecomposition:
         )
         return integration / self.mesh_slepian.slepian_eigenvalues[rank]
 
-    def _integrate_mesh(self: typing_extensions.Self, rank: int) -> float:
+    def _integrate_mesh(self: typing_extensions.Self, rank: int) -> complex:
         r"""
         F_{p} =
         \int\limits_{x} \dd{x}
@@ -88,7 +92,7 @@ class MeshSlepianDecomposition:
             s_p,
         )
 
-    def _harmonic_sum(self: typing_extensions.Self, rank: int) -> float:
+    def _harmonic_sum(self: typing_extensions.Self, rank: int) -> complex:
         r"""
         F_{p} =
         \sum\limits_{i=0}^{K}
diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 86dda62..92f4932 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -173,7 +173,7 @@ def slepian_mesh_forward(
     u_i: npt.NDArray[np.complex128 | np.float64] | None = None,
     mask: bool = False,
     n_coeffs: int | None = None,
-) -> npt.NDArray[np.float64]:
+) -> npt.NDArray[np.complex128 | np.float64]:
     """
     Compute the Slepian forward transform for all coefficients on the mesh.
 
-- 
2.43.0

