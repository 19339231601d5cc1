From be82a2fc9f07b3231253dc9ee3a10d447f87fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 01/26] fix: honour the prefix argument in the names of the
 saved output files

---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..36f770c 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -56,8 +56,8 @@ class Estimator_gle(object):
         self.verbose = verbose
 
         # filenames
-        self.corrsfile = "corrs.nc"
-        self.kernelfile = "kernel.nc"
+        self.corrsfile = self.prefix + "corrs.nc"
+        self.kernelfile = self.prefix + "kernel.nc"
 
         self.data_describe = None
 
-- 
2.43.0


From fdd1345a40194877a391795feae23f6d27e8b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 02/26] fix: compute_corrs(second_order_method=False) no longer
 fails when saveall is set

---
 VolterraBasis/gle_estimation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 36f770c..b4b6d49 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -284,7 +284,10 @@ class Estimator_gle(object):
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
+            if isinstance(self.dotbkbkcorrw, xr.DataArray):  # When second_order_method is False, there is no derivative correlation functions to save
+                corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
+            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
-- 
2.43.0


From b20c96883018d6bf268e2dbc6f0876fb96e3d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 03/26] fix: a failing compute_kernel no longer relabels the
 method of the kernel already held

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index b4b6d49..b1eba68 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -308,7 +308,6 @@ class Estimator_gle(object):
             print("Compute memory kernel using {} method".format(method))
         time = np.arange(self.model.trunc_ind) * self.dt
         time_ker = time - time[0]  # Set zero time
-        self.model.method = method  # Save used method
         if self.verbose:
             print("Use dt:", self.dt)
         if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:  # Then we should compute initial value from time derivative at zero
@@ -346,6 +345,7 @@ class Estimator_gle(object):
             raise Exception("Method for volterra inversion is not in  {rectangular, midpoint, midpoint_w_richardson,trapz,second_kind_rect,second_kind_trapz}")
 
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
+        self.model.method = method  # Save used method
         if self.saveall:  # TODO: change to xarray save
             xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.kernelfile)
         return self.model
-- 
2.43.0


From 8f6fd8205eb3037be83201cd70777df99f496ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 04/26] fix: compute_gram_kernel failed on every model using
 the projection on the range of the basis

---
 VolterraBasis/gle_estimation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index b1eba68..10a1abc 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -209,9 +209,12 @@ class Estimator_gle(object):
         """
         if self.verbose:
             print("Calculate kernel gram...")
-        self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
+        gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            if self.model.P_range is None:
+                raise Exception("Need correlation functions to project the kernel gram on the range of the basis.")
+            gram_kernel = xr.DataArray(np.einsum("lj,jk,mk->lm", self.model.P_range, gram_kernel, self.model.P_range), dims=gram_kernel.dims)
+        self.model.gram_kernel = gram_kernel
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From caad737050122be96742c6fbe6e6b34ed856f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 05/26] fix: compute_noise summed the mean force over the
 components of the observable when dim_x > 1

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..0af3fdf 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From 27709ffbcf8f1e2cf03495b2c034191c5c77d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 06/26] fix: evaluating a 1D finite element basis modified the
 caller's data at the last mesh point

---
 VolterraBasis/basis/_fem_features.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..d6c1bfb 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -40,9 +40,8 @@ class ElementFinder:
         """
         Assuming X is nsamples x 1
         """
-        maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        x = np.where(X[:, 0] == self.max_point, X[:, 0] - 1e-10, X[:, 0])  # special case in np.digitize, do not modify the data of the caller
+        return np.argmax((np.digitize(x, self.bins) - 1)[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From 16940a1c1e659a06c8090d8638c7963fcc2014a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 07/26] fix: solve_ide_trapz_stab read outside of the
 correlation array (wrong time index)

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..b9e73a8 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -477,7 +477,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From 39a174fb83a37d9d1f12ed6b2c18ffb84fd0719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 08/26] fix: a singular correlation matrix raises LinAlgError
 instead of stopping the Python process

---
 VolterraBasis/fkernel.f90       | 9 +++++++--
 VolterraBasis/gle_estimation.py | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index b9e73a8..af6a38a 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -9,7 +9,9 @@ contains
 
 ! Returns the inverse of a matrix calculated by finding the LU
 ! decomposition.  Depends on LAPACK.
+! If the matrix is singular, the result is filled with NaN and the caller has to deal with it
 function inv(A) result(Ainv)
+  use, intrinsic :: ieee_arithmetic
   implicit none
   double precision,intent(in) :: A(:,:)
   double precision            :: Ainv(size(A,1),size(A,2))
@@ -22,11 +24,14 @@ function inv(A) result(Ainv)
   ! SGETRF computes an LU factorization of a general M-by-N matrix A
   ! using partial pivoting with row interchanges.
   call DGETRF(n,n,Ainv,n,ipiv,info)
-  if (info.ne.0) stop 'Matrix is numerically singular!'
+  if (info.ne.0) then ! Matrix is numerically singular
+     Ainv = ieee_value(1.0d0, ieee_quiet_nan)
+     return
+  end if
   ! SGETRI computes the inverse of a matrix using the LU factorization
   ! computed by SGETRF.
   call DGETRI(n,Ainv,n,ipiv,work,n,info)
-  if (info.ne.0) stop 'Matrix inversion failed!'
+  if (info.ne.0) Ainv = ieee_value(1.0d0, ieee_quiet_nan) ! Matrix inversion failed
 end function inv
 end module lapackMod
 
diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 10a1abc..a0c8ed8 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -347,6 +347,8 @@ class Estimator_gle(object):
         else:
             raise Exception("Method for volterra inversion is not in  {rectangular, midpoint, midpoint_w_richardson,trapz,second_kind_rect,second_kind_trapz}")
 
+        if np.isnan(kernel[:2]).any():
+            raise np.linalg.LinAlgError("Matrix is numerically singular, the Volterra equation cannot be inverted.")
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
         self.model.method = method  # Save used method
         if self.saveall:  # TODO: change to xarray save
-- 
2.43.0


From 33245589a1eea256d75ce3b5d45c5190017e54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 09/26] fix: save_model/load_model lose the inversion method,
 masses and Gram matrices, and load_model modifies the save

---
 VolterraBasis/models.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 0af3fdf..6aec61b 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -372,8 +372,12 @@ class ModelBase(object):
             coeffs.update({"force_coeff": self.force_coeff.rename({"dim_basis": "dim_basis_force"})})
         if self.gram_force is not None:
             coeffs.update({"gram_force": self.gram_force.rename({"dim_basis": "dim_basis_force", "dim_basis'": "dim_basis_force'"})})
+        if self.gram_kernel is not None:
+            coeffs.update({"gram_kernel": self.gram_kernel.rename({"dim_basis": "dim_basis_gram", "dim_basis'": "dim_basis_gram'"})})
+        if self.inv_mass_coeff is not None:
+            coeffs.update({"inv_mass_coeff": self.inv_mass_coeff.rename({"dim_basis": "dim_basis_mass"})})
         for key, dat in self.__dict__.items():
-            if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
+            if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "gram_kernel", "inv_mass_coeff", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
                 if dat is not None:
                     coeffs.update({key: dat})
 
@@ -386,18 +390,29 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)  # Do not modify the save
         for key, value in kwargs.items():
             cls_attrs[key] = value
+        for key in ["dim_x", "dim_obs"]:  # Reading from a file does not give back python integers
+            if key in cls_attrs:
+                cls_attrs[key] = int(cls_attrs[key])
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "inv_mass_coeff", "eff_mass"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        if "rank_projection" in coeffs:
+            model.rank_projection = bool(coeffs["rank_projection"])
+        if "method" in coeffs:
+            model.method = str(coeffs["method"].values)
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
             model.gram_force = model.gram_force.rename({"dim_basis_force": "dim_basis", "dim_basis_force'": "dim_basis'"})
+        if model.gram_kernel is not None:
+            model.gram_kernel = model.gram_kernel.rename({"dim_basis_gram": "dim_basis", "dim_basis_gram'": "dim_basis'"})
+        if model.inv_mass_coeff is not None:
+            model.inv_mass_coeff = model.inv_mass_coeff.rename({"dim_basis_mass": "dim_basis"})
 
         return model
 
-- 
2.43.0


From 95501de2cbcfec71e769c73b829df7ae79b4f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 10/26] fix: Integrator_gle failed with a truncated kernel or
 without a model

---
 VolterraBasis/gle_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..3d9ddfa 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -223,7 +223,8 @@ class Integrator_gle(object):
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        time_kernel = gle_model.kernel["time_kernel"].to_numpy()[: self.trunc_kernel] if gle_model is not None else np.arange(self.trunc_kernel) * self.dt
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, time_kernel, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From 23030b6e765afce77efd8b338236124b563ff1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 11/26] fix: a failed or killed save leaves a truncated or
 silently incomplete file under the final name

---
 VolterraBasis/gle_estimation.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a0c8ed8..58dba4e 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -1,3 +1,5 @@
+import os
+
 import numpy as np
 import xarray as xr
 from scipy.integrate import trapezoid
@@ -18,6 +20,20 @@ def solve_linear(G, b):  # Write also a sparse version
     return xr.DataArray(x_np, dims=b.dims)
 
 
+def save_dataset(dataset, filename):
+    """
+    Save the dataset to filename, that never holds a partially written dataset
+    """
+    tmpfile = filename + ".tmp"
+    try:
+        dataset.to_netcdf(tmpfile)
+        os.replace(tmpfile, filename)
+    except BaseException:
+        if os.path.exists(tmpfile):
+            os.remove(tmpfile)
+        raise
+
+
 class Estimator_gle(object):
     """
     The main class for the position dependent memory extraction holding all data.
@@ -290,7 +306,7 @@ class Estimator_gle(object):
             corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
             if isinstance(self.dotbkbkcorrw, xr.DataArray):  # When second_order_method is False, there is no derivative correlation functions to save
                 corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
-            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            save_dataset(xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}), self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
@@ -352,7 +368,7 @@ class Estimator_gle(object):
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
         self.model.method = method  # Save used method
         if self.saveall:  # TODO: change to xarray save
-            xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.kernelfile)
+            save_dataset(xr.Dataset({"kernel": self.model.kernel}), self.kernelfile)
         return self.model
 
     def check_volterra_inversion(self, return_diff=False):
-- 
2.43.0


From 12b60eb8a171536153afb867a6d0f351a4a3a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 12/26] fix: a compute_corrs failing in the projection on the
 range of the basis left unprojected correlation functions

---
 VolterraBasis/gle_estimation.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 58dba4e..4feb809 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -287,21 +287,23 @@ class Estimator_gle(object):
             print("Calculate correlation functions...")
         if self.model.force_coeff is None:
             raise Exception("Mean force has not been computed.")
-        self.bkdxcorrw, self.dotbkdxcorrw, self.bkbkcorrw, self.dotbkbkcorrw = self.loop_over_trajs(self._correlation_ufunc, self.model, **kwargs)
+        bkdxcorrw, dotbkdxcorrw, bkbkcorrw, dotbkbkcorrw = self.loop_over_trajs(self._correlation_ufunc, self.model, **kwargs)
 
         if self.model.rank_projection:
             if self.verbose:
                 print("Projection on range space...")
-            P_range = self.model._set_range_projection(rank_tol, self.bkbkcorrw.isel(time_trunc=0))
+            P_range = self.model._set_range_projection(rank_tol, bkbkcorrw.isel(time_trunc=0))
             P_range_tranpose = P_range.rename({"dim_basis_old": "dim_basis_old'", "dim_basis": "dim_basis'"})
-            tempbkbkcorrw = xr.dot(P_range, self.bkbkcorrw.rename({"dim_basis": "dim_basis_old"}))
-            self.bkbkcorrw = xr.dot(P_range_tranpose, tempbkbkcorrw.rename({"dim_basis'": "dim_basis_old'"}))
-            # self.bkbkcorrw = np.einsum("lj,ijk,mk->ilm", self.model.P_range, self.bkbkcorrw, self.model.P_range)
-            self.bkdxcorrw = xr.dot(P_range, self.bkdxcorrw.rename({"dim_basis": "dim_basis_old"}))
-            if self.dotbkdxcorrw is not None:
-                self.dotbkdxcorrw = xr.dot(P_range, self.dotbkdxcorrw.rename({"dim_basis": "dim_basis_old"}))
-            if isinstance(self.dotbkbkcorrw, xr.DataArray):
-                self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
+            tempbkbkcorrw = xr.dot(P_range, bkbkcorrw.rename({"dim_basis": "dim_basis_old"}))
+            bkbkcorrw = xr.dot(P_range_tranpose, tempbkbkcorrw.rename({"dim_basis'": "dim_basis_old'"}))
+            # bkbkcorrw = np.einsum("lj,ijk,mk->ilm", self.model.P_range, bkbkcorrw, self.model.P_range)
+            bkdxcorrw = xr.dot(P_range, bkdxcorrw.rename({"dim_basis": "dim_basis_old"}))
+            if dotbkdxcorrw is not None:
+                dotbkdxcorrw = xr.dot(P_range, dotbkdxcorrw.rename({"dim_basis": "dim_basis_old"}))
+            if isinstance(dotbkbkcorrw, xr.DataArray):
+                dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
+        # Only replace the correlation functions once all of them are available
+        self.bkdxcorrw, self.dotbkdxcorrw, self.bkbkcorrw, self.dotbkbkcorrw = bkdxcorrw, dotbkdxcorrw, bkbkcorrw, dotbkbkcorrw
         if self.saveall:
             corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
             if isinstance(self.dotbkbkcorrw, xr.DataArray):  # When second_order_method is False, there is no derivative correlation functions to save
-- 
2.43.0


From 677792629ca8a79a3197fcd817a137fc74845028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 13/26] fix: LinearFeatures whose fit was interrupted was taken
 as fitted and failed ever after

---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..7d25bef 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -23,12 +23,12 @@ class LinearFeatures(TransformerMixin):
     def fit(self, describe_result):
         if isinstance(describe_result, np.ndarray):
             describe_result = minimal_describe(describe_result)
-        self.n_output_features_ = describe_result.mean.shape[0]
         self.dim_out_basis = 1
         if self.centered:
             self.mean_ = describe_result.mean
         else:
-            self.mean_ = np.zeros((self.n_output_features_,))
+            self.mean_ = np.zeros((describe_result.mean.shape[0],))
+        self.n_output_features_ = describe_result.mean.shape[0]  # Set last, as it marks the basis as fitted
         return self
 
     def basis(self, X):
-- 
2.43.0


From 9286152f4a08456c017510e7498f983fceccedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 14/26] fix: FeaturesCombiner.deriv failed for one basis and
 dropped the middle ones for three or more

---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 7d25bef..44a0135 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -256,8 +256,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From 9f3f2d6ec22bc1db1d5a6a040c9405d7c1ae8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 15/26] fix: the free energy of a centered linear basis ignored
 the mean

---
 VolterraBasis/basis/_basis_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 44a0135..2f75c04 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -46,7 +46,7 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        return 0.5 * np.power(X, 2) - self.mean_ * X
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From 368639d12b2d6dc16c359bb4b7b198f7bad9172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 16/26] fix: the trapezoidal memory integral counted the last
 kernel point with weight 3/2 instead of 1/2

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index af6a38a..5e3c236 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -331,7 +331,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From c234a0aaa62e6a06954e9874d3a00d3a6a5b24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:11 +0000
Subject: [PATCH 17/26] fix: TensorialBasis2D derivatives failed on lazily
 evaluated trajectories

---
 VolterraBasis/basis/_multidim_basis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/VolterraBasis/basis/_multidim_basis.py b/VolterraBasis/basis/_multidim_basis.py
index 9355d4a..7c6b487 100644
--- a/VolterraBasis/basis/_multidim_basis.py
+++ b/VolterraBasis/basis/_multidim_basis.py
@@ -49,19 +49,19 @@ class TensorialBasis2D(TransformerMixin):
             raise NotImplementedError("Implement it yourself")
         nsamples, nfeatures = X.shape
         temp_arr_1 = np.einsum("nk,nl...->nkl...", self.b1.basis(X[:, slice(0, 1)]), self.b2.deriv(X[:, slice(1, 2)], deriv_order=deriv_order))
-        grad_1 = temp_arr_1.reshape(nsamples, -1, *temp_arr_1.shape[3:])
+        grad_1 = temp_arr_1.reshape(nsamples, temp_arr_1.shape[1] * temp_arr_1.shape[2], *temp_arr_1.shape[3:])
         temp_arr_2 = np.einsum("nk...,nl->nkl...", self.b1.deriv(X[:, slice(0, 1)], deriv_order=deriv_order), self.b2.basis(X[:, slice(1, 2)]))
-        grad_2 = temp_arr_2.reshape(nsamples, -1, *temp_arr_2.shape[3:])
+        grad_2 = temp_arr_2.reshape(nsamples, temp_arr_2.shape[1] * temp_arr_2.shape[2], *temp_arr_2.shape[3:])
         return np.concatenate((grad_2, grad_1), axis=-1)
 
     def hessian(self, X):
         nsamples, nfeatures = X.shape
         temp_arr_1 = np.einsum("nk,nl...->nkl...", self.b1.basis(X[:, slice(0, 1)]), self.b2.hessian(X[:, slice(1, 2)]))
-        hess_1 = temp_arr_1.reshape(nsamples, -1, *temp_arr_1.shape[3:])
+        hess_1 = temp_arr_1.reshape(nsamples, temp_arr_1.shape[1] * temp_arr_1.shape[2], *temp_arr_1.shape[3:])
         temp_arr_cross = np.einsum("nkd,nlf->nkldf", self.b1.deriv(X[:, slice(0, 1)]), self.b2.deriv(X[:, slice(1, 2)]))
-        hess_cross = temp_arr_cross.reshape(nsamples, -1, *temp_arr_cross.shape[3:])
+        hess_cross = temp_arr_cross.reshape(nsamples, temp_arr_cross.shape[1] * temp_arr_cross.shape[2], *temp_arr_cross.shape[3:])
         temp_arr_2 = np.einsum("nk...,nl->nkl...", self.b1.hessian(X[:, slice(0, 1)]), self.b2.basis(X[:, slice(1, 2)]))
-        hess_2 = temp_arr_2.reshape(nsamples, -1, *temp_arr_2.shape[3:])
+        hess_2 = temp_arr_2.reshape(nsamples, temp_arr_2.shape[1] * temp_arr_2.shape[2], *temp_arr_2.shape[3:])
         # print(hess_1.shape, hess_cross.shape, hess_2.shape)
         return np.concatenate((np.concatenate((hess_2, hess_cross), axis=-2), np.concatenate((hess_cross, hess_1), axis=-2)), axis=-1)
 
-- 
2.43.0


From a0d370f3b68a76e387cf6d4c525a0580289a0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 18/26] fix: Pos_gle_hybrid summed the time derivative of the
 basis over time

Without dims, xr.dot also contracts the time dimension shared by the
derivative of the basis and the velocity, so that the correlation functions
used by the second kind methods were built from a constant instead of the
time derivative of the basis.
---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 6aec61b..6044c51 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -644,7 +644,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From 255367d9b90b789df85401e978496a9e47b7d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 19/26] fix: midpoint inversion left the last kernel point at
 zero for even lengths

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 5e3c236..c343fda 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -150,7 +150,7 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
-  do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
+  do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):
      call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
-- 
2.43.0


From f9e423074835b8f720c5667dbb873f664a0d56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 20/26] fix: simpson_integral read outside its arrays for less
 than three points

---
 VolterraBasis/fkernel.f90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index c343fda..6d6efff 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -91,6 +91,10 @@ subroutine simpson_integral(res,dt,n,B,kernel,dim_basis,dim_x,dim_out)
   double precision,intent(in)::dt
   integer::j,start_j
   double precision::h
+  if(n < 2) then ! Too few points for simpson rule
+     call trapz_integral(res,dt,n,B,kernel,dim_basis,dim_x,dim_out)
+     return
+  end if
   h=dt/3.
   !n even use trapezodial rule for first point
   if(mod(n,2) ==1) then
-- 
2.43.0


From e002519366f989e73a35b42164e45672a1664990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:49 +0000
Subject: [PATCH 21/26] fix: gradient of finite element features was scrambled
 in dimension 2 and above

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index d6c1bfb..7e2387f 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -122,7 +122,7 @@ class FEMScalarFeatures(TransformerMixin):
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
         phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
         return sparse.COO(
-            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
+            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(np.moveaxis(phis, -1, 0)), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
 
     def hessian(self, X):  # Only for Elementglobal
-- 
2.43.0


From 4b5a0d93110ba3298a761f25547d28f91957b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:08 +0000
Subject: [PATCH 22/26] fix: finite element features could not be used on
 tetrahedral meshes

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 7e2387f..4aebd87 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -62,7 +62,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From 4680402e9173abcf7fef63e1297f83dd956dafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:10 +0000
Subject: [PATCH 23/26] fix: finite element features used a wrong element when
 it is not among the five closest

---
 VolterraBasis/basis/_fem_features.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 4aebd87..91f5d58 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -53,6 +53,10 @@ class ElementFinder:
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
+            if not inside.any():  # The element is not one of the closest ones
+                inside_all = self.inside(self.mapping.invF((point.T)[:, None, None], tind=np.arange(self.tree.n)))
+                if inside_all.any():
+                    i_e, inside = np.arange(self.tree.n), inside_all
             element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
-- 
2.43.0


From 750dd162d608236f848c757b84c4db556b7f350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:26 +0000
Subject: [PATCH 24/26] fix: laplace_transform_kernel could not find the time
 of the kernel

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 6044c51..99c9c32 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -359,7 +359,7 @@ class ModelBase(object):
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time_kernel"].to_numpy()), self.kernel), x=self.kernel["time_kernel"].to_numpy(), axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From 0a9c75f0e46376e243d86e7d309818da0da1db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:04 +0000
Subject: [PATCH 25/26] fix: lazily evaluated trajectories failed for bases
 that check the dimension of the points

---
 VolterraBasis/models.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 99c9c32..17dff70 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -458,16 +458,16 @@ class Pos_gle(ModelBase):
 
     def basis_vector(self, xva, compute_for="corrs"):
 
-        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "force":
             return bk
         elif compute_for == "pmf":
-            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
-        dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized")
+            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
+        dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "kernel":  # For kernel evaluation
             return dbk
         elif compute_for == "corrs":
-            ddbk = xr.apply_ufunc(self.basis.hessian, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x", "dim_x'"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x, "dim_x'": self.dim_x}}, dask="parallelized")
+            ddbk = xr.apply_ufunc(self.basis.hessian, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x", "dim_x'"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x, "dim_x'": self.dim_x}}, dask="parallelized", output_dtypes=[float])
             E = xr.dot(dbk, xva["v"], dims=["dim_x"])
             dE = xr.dot(dbk, xva["a"], dims=["dim_x"]) + xr.dot(ddbk, xva["v"], xva["v"].rename({"dim_x": "dim_x'"}), dims=["dim_x", "dim_x'"])
             return bk, E, dE
@@ -492,12 +492,12 @@ class Pos_gle_with_friction(Pos_gle):
 
     def basis_vector(self, xva, compute_for="corrs"):
         # We have to deal with the multidimensionnal case as well
-        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "force_eval":
             return bk
         elif compute_for == "pmf":
-            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
-        dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized")
+            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
+        dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "kernel":  # To have the term proportional to velocity
             return dbk
 
@@ -506,7 +506,7 @@ class Pos_gle_with_friction(Pos_gle):
         if compute_for == "force":
             return E
         elif compute_for == "corrs":
-            ddbk = xr.apply_ufunc(self.basis.hessian, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x", "dim_x'"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x, "dim_x'": self.dim_x}}, dask="parallelized")
+            ddbk = xr.apply_ufunc(self.basis.hessian, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x", "dim_x'"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x, "dim_x'": self.dim_x}}, dask="parallelized", output_dtypes=[float])
             dE = xr.dot(dbk, xva["a"], dims=["dim_x"]) + xr.dot(ddbk, xva["v"], xva["v"].rename({"dim_x": "dim_x'"}), dims=["dim_x", "dim_x'"])
             return E, Evel, dE
         else:
@@ -571,16 +571,16 @@ class Pos_gle_no_vel_basis(Pos_gle):
             print("Warning: remove_const on basis function have been set to False.")
 
     def basis_vector(self, xva, compute_for="corrs"):
-        E = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+        E = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "force":
             return E
         elif compute_for == "pmf":
-            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         elif compute_for == "kernel":
             # Extend the basis for multidim value
             return E.expand_dims({"dim_x": self.dim_x}, axis=-1)
         elif compute_for == "corrs":
-            dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized")
+            dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized", output_dtypes=[float])
             dE = xr.dot(dbk, xva["v"], dims=["dim_x"])
             return E, E, dE
         else:
@@ -600,11 +600,11 @@ class Pos_gle_const_kernel(Pos_gle):
         self.N_basis_elt_kernel = self.dim_obs
 
     def basis_vector(self, xva, compute_for="corrs"):
-        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "force":
             return bk
         elif compute_for == "pmf":
-            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "kernel":  # For kernel evaluation
             grad = np.zeros((bk.shape[0], self.dim_obs, self.dim_obs))
             for i in range(self.dim_obs):
@@ -633,18 +633,18 @@ class Pos_gle_hybrid(Pos_gle):
 
     def basis_vector(self, xva, compute_for="corrs"):
         # We have to deal with the multidimensionnal case as well
-        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+        bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "force":
             return bk
         elif compute_for == "pmf":
-            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         elif compute_for == "kernel":
             # Extend the basis for multidim value
             return bk.expand_dims({"dim_x": self.dim_x}, axis=-1)
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized", output_dtypes=[float]), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
@@ -688,16 +688,16 @@ class Pos_gle_overdamped(ModelBase):
         self.rank_projection = rank_projection
 
     def basis_vector(self, xva, compute_for="corrs"):
-        E = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+        E = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         if compute_for == "force":
             return E
         elif compute_for == "pmf":
-            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
+            return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized", output_dtypes=[float])
         elif compute_for == "kernel":
             return E.expand_dims({"dim_x": self.dim_x}, axis=-1)
             # return E.reshape(-1, self.N_basis_elt_kernel, self.dim_x)
         elif compute_for == "corrs":
-            dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized")
+            dbk = xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt_kernel, "dim_x": self.dim_x}}, dask="parallelized", output_dtypes=[float])
             dE = xr.dot(dbk, xva["v"], dims=["dim_x"])
             return E, E, dE
         else:
-- 
2.43.0


From f35f9e71e624662606466b9649c82e52dabc8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 26/26] fix: the truncation depended on the order and the time
 origin of the trajectories

_compute_trunc_ind compared absolute times of the first trajectory with the
last time of the earliest ending one, so trajectories starting at different
times (pieces of a longer one for example) gave a number of points that
depended on their order, 0, or more than the length of a trajectory.
---
 VolterraBasis/gle_estimation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 4feb809..6ad9b2d 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -141,14 +141,13 @@ class Estimator_gle(object):
                     raise Exception("Please provide dataset that include {} as variable .".format(L_obs))
 
     def _compute_trunc_ind(self, trunc):
-        lastinds = np.array([xva["time"][-1] for xva in self.xva_list])
-        smallest = np.min(lastinds)
-        if smallest < trunc:
+        # Time elapsed since the start of each trajectory, that can have different time origins
+        times = [xva["time"] - xva["time"][0] for xva in self.xva_list]
+        if min(time[-1] for time in times) < trunc:
             if self.verbose:
                 print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
-            trunc = smallest
-        # Find index of the time truncation
-        self.trunc_ind = (self.xva_list[0]["time"] <= trunc).sum().data
+        # Find index of the time truncation, common to all trajectories
+        self.trunc_ind = min((time <= trunc).sum().data for time in times)
         if self.verbose:
             print("Trajectories are truncated at lenght {} for dynamic analysis".format(self.trunc_ind))
         return self.trunc_ind
-- 
2.43.0

