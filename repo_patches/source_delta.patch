From 29c11a963443bca73f4570037f6e6135c517a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 01/26] fix: calibrate without a learnable spectrum no longer
 dies reporting p and q

---
 drdmannturb/spectra_fitting/calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 55ce139..65743c0 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -499,8 +499,9 @@ class CalibrationProblem:
             print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
             print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
             print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
-            print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
-            print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
+            if self.prob_params.use_learnable_spectrum:
+                print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
+                print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
 
             if not (torch.isfinite(self.loss)):
                 raise RuntimeError("Loss is not a finite value, check initialization and learning hyperparameters.")
-- 
2.43.0


From 318c32f0bf1e776648d16ba699c2ea4c674c5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 02/26] fix: regularisation weight with a model that has no
 network no longer crashes calibrate

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65743c0..062cbb1 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -427,7 +427,7 @@ class CalibrationProblem:
             # NOTE: Old code used tauNet.NN.parameters() since the NN wasn't "built-in" to the tauNet
             self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.parameters())
         else:
-            self.gen_theta_NN = lambda: 0.0
+            self.gen_theta_NN = lambda: None
 
         theta_NN = self.gen_theta_NN()
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
-- 
2.43.0


From 7e65e91e00a9169f98c8421efb076f87abf8b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 03/26] fix: assigning a parameter tensor no longer aliases the
 caller's storage

---
 drdmannturb/spectra_fitting/calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 062cbb1..65a71fd 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -185,6 +185,9 @@ class CalibrationProblem:
 
         if not torch.is_tensor(param_vec):
             param_vec = torch.tensor(param_vec)
+        else:
+            # vector_to_parameters keeps views of its argument: never share the caller's storage
+            param_vec = param_vec.detach().clone()
 
         if len(param_vec) != current_num_params:
             raise ValueError(
-- 
2.43.0


From 6169d0896c5aeea888cd6a168b5774ae9a65c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 04/26] fix: save_model replaces the previous model atomically

---
 drdmannturb/spectra_fitting/calibration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65a71fd..50166a1 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -2,6 +2,7 @@
 
 import os
 import pickle
+import threading
 import time
 from collections.abc import Iterable
 from pathlib import Path
@@ -705,7 +706,10 @@ class CalibrationProblem:
 
         filename = save_dir + "/" + str(self.prob_params.eddy_lifetime) + ".pkl"
         os.makedirs(os.path.dirname(filename), exist_ok=True)
-        with open(filename, "wb+") as file:
+
+        # Write aside, flush to disk, then rename over: a failure or crash part-way never costs the previous model
+        tmp_filename = f"{filename}.{os.getpid()}.{threading.get_ident()}.tmp"
+        with open(tmp_filename, "wb") as file:
             pickle.dump(
                 [
                     self.nn_params,
@@ -716,6 +720,9 @@ class CalibrationProblem:
                 ],
                 file,
             )
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(tmp_filename, filename)
 
     def plot(
         self,
-- 
2.43.0


From e876f7a314a356d29119a39a2ec29d13e49496f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 05/26] fix: training log reaches the event file at every epoch
 instead of at interpreter exit

---
 drdmannturb/spectra_fitting/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 50166a1..b9819e2 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -442,6 +442,7 @@ class CalibrationProblem:
         print("=" * 40)
         print(f"Initial loss: {self.loss.item()}")
         print("=" * 40)
+        self.LossAggregator.writer.flush()
 
         def closure() -> torch.Tensor:
             """Closure function for the optimizer.
@@ -495,6 +496,7 @@ class CalibrationProblem:
             print(f"Current loss: {self.loss.item()}")
 
             optimizer.step(closure)
+            self.LossAggregator.writer.flush()
             scheduler.step()
 
             epoch_end_time = time.time()
-- 
2.43.0


From 566e57081444171ea9c097a65fdec23bcf658ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 06/26] fix: plot_losses run number no longer depends on
 directory enumeration order

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index b9819e2..dc82593 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1172,7 +1172,7 @@ class CalibrationProblem:
         # TODO: This is temporary
         assert self.logging_directory is not None, "Logging directory not set!"
 
-        log_fpath = listdir(self.logging_directory)[run_number]
+        log_fpath = sorted(listdir(self.logging_directory))[run_number]
         full_fpath = path.join(self.logging_directory, log_fpath)
 
         from drdmannturb import plot_loss_logs
-- 
2.43.0


From d2eda5c0d3b7a21fdbcaa6a3e717eaf02e19872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 07/26] fix: save_to_vtk accepts a Path, as its signature says

---
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d631464..26a1c88 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -522,7 +522,7 @@ class FluctuationFieldGenerator:
             "wind": wind_field_vtk,
         }
 
-        imageToVTK(filepath, cellData=cellData, spacing=spacing)
+        imageToVTK(str(filepath), cellData=cellData, spacing=spacing)
 
     def evaluate_divergence(self, spacing: tuple | np.ndarray, field: np.ndarray | None = None) -> np.ndarray:
         r"""Evaluate the point-wise divergence of a generated fluctuation vector field.
-- 
2.43.0


From 9d9bc6b3974db31fe7ea114ed9fa5b14090ca623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 08/26] fix: the seed also determines the low-frequency
 component of a 2D+3D field

---
 .../fluctuation_generation/fluctuation_field_generator.py | 2 +-
 .../low_frequency/fluctuation_field_generator.py          | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 26a1c88..f6ae7da 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -252,7 +252,7 @@ class FluctuationFieldGenerator:
 
         self.low_freq_gen: LowFreqGenerator | None = None
         if config_2d_model is not None:
-            self.low_freq_gen = LowFreqGenerator(config_2d_model)
+            self.low_freq_gen = LowFreqGenerator(config_2d_model, seed=self.seed)
 
             print("Generating low-frequency field...")
 
diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3bccb57..4ff02af 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -84,7 +84,7 @@ class LowFreqGenerator:
 
     """
 
-    def __init__(self, config: dict):
+    def __init__(self, config: dict, seed: int | None = None):
         """
         Initialize the LowFreqGenerator instance.
 
@@ -95,7 +95,11 @@ class LowFreqGenerator:
         ----------
         config : dict
             Configuration dictionary. See class docstring for required keys.
+        seed : int, optional
+            Seed for this generator's own random stream; by default None, which draws from ``numpy.random``.
         """
+        self.rng = np.random if seed is None else np.random.default_rng(seed)
+
         # Physical parameters
         self.sigma2 = config["sigma2"]
         self.L_2d = config["L_2d"]
@@ -484,7 +488,7 @@ class LowFreqGenerator:
             The u2 component of the velocity field, extracted to match user dimensions.
         """
         # 1. Generate noise on the computational grid
-        noise = np.random.normal(0, 1, size=(self.comp_N1, self.comp_N2))
+        noise = self.rng.normal(0, 1, size=(self.comp_N1, self.comp_N2))
         # 2. Compute its Fourier transform
         noise_hat = np.fft.fft2(noise)
 
-- 
2.43.0


From 74e1c0d6097403c136481e41410d15959f4128f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 09/26] fix: low-frequency component continues across generate
 calls

---
 .../fluctuation_generation/fluctuation_field_generator.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index f6ae7da..b11f75d 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -450,7 +450,8 @@ class FluctuationFieldGenerator:
                 # --- X-Coordinates (blocks progress in x-direction
                 current_block_nx = normed_block.shape[0]
                 block_length_x = self.grid_dimensions[0] * (current_block_nx / self.Nx)
-                x_start = i * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
+                n_previous = self.total_fluctuation.shape[0] // self.Nx  # blocks of earlier calls count as well
+                x_start = n_previous * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
                 x_end = x_start + block_length_x
                 x_coords_block_target = np.linspace(x_start, x_end, current_block_nx, endpoint=False)
 
-- 
2.43.0


From 0a2af1f835c31696a6a82e49dd8985ec0e4521e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 10/26] fix: a failed or interrupted block no longer consumes
 noise, so generation resumes where it stopped

---
 .../fluctuation_field_generator.py                   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index b11f75d..67a6c85 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -217,6 +217,7 @@ class FluctuationFieldGenerator:
         #   - Also, total_fluctuation is the "accumulator" for generated blocks
         self.noise = None
         self.total_fluctuation = np.zeros([0, Ny, Nz, 3])
+        self._checkpoint: tuple | None = None
 
         CovarianceType = Union[
             type[VonKarmanCovariance],
@@ -258,6 +259,15 @@ class FluctuationFieldGenerator:
 
             self.low_freq_gen.generate()
 
+    def _begin_block(self) -> None:
+        """Mark the start of a block, rewinding the noise if the last block was started but never appended."""
+        n_rows = self.total_fluctuation.shape[0]
+        if self._checkpoint is not None and self._checkpoint[0] == n_rows:
+            _, self.noise, prng_state = self._checkpoint
+            self.RF.prng.set_state(prng_state)
+        else:
+            self._checkpoint = (n_rows, self.noise, self.RF.prng.get_state())
+
     def _generate_block(self) -> np.ndarray:
         """Generate a single block of the fluctuation field.
 
@@ -430,6 +440,7 @@ class FluctuationFieldGenerator:
 
         for i in range(num_blocks):
             # --- Generate and normalize block ---
+            self._begin_block()
             t_block = self._generate_block()
 
             normed_block = self._normalize_block(
@@ -501,6 +512,7 @@ class FluctuationFieldGenerator:
 
             # --- Concatenate block ---
             self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)
+            self._checkpoint = None
 
         return self.total_fluctuation
 
-- 
2.43.0


From f3ba9a9f9f53d83fa74efc6341a5270a6d84f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 11/26] fix: model coherence depends on the current length
 scale only, not on the first one evaluated

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 99baa85..a74f5e5 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -291,14 +291,17 @@ class OnePointSpectra(nn.Module):
             # Scale the grid by 1/L to get proper physical units
             scale_factor = 1.0 / self.LengthScale
 
-            self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
-            self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
+            # The scale follows the current L, so this grid must not outlive the call
+            coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
+            coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
 
             # self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach()
             # self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach()
+        else:
+            coh_grid_k2, coh_grid_k3 = self.coh_grid_k2, self.coh_grid_k3
 
         # Create coherence-specific k-space grid
-        coh_k = torch.stack(torch.meshgrid(k1_input, self.coh_grid_k2, self.coh_grid_k3, indexing="ij"), dim=-1)
+        coh_k = torch.stack(torch.meshgrid(k1_input, coh_grid_k2, coh_grid_k3, indexing="ij"), dim=-1)
 
         # Calculate eddy lifetime on coherence grid
         beta_coh = self.EddyLifetime(coh_k)
-- 
2.43.0


From 597414c792ec38bb6cd77adc67c1ff15334f3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 12/26] fix: PowerSpectra no longer rescales the stored energy
 spectrum on every call

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index a74f5e5..5d6ba3e 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -588,7 +588,7 @@ class OnePointSpectra(nn.Module):
 
         zeta1 = C1 - k2 / k1 * C2
         zeta2 = C1 * k2 / k1 + C2
-        E0 /= 4 * torch.pi
+        E0 = E0 / (4 * torch.pi)
         Phi11 = E0 / (kk0**2) * (kk0 - k1**2 - 2 * k1 * k30 * zeta1 + (k1**2 + k2**2) * zeta1**2)
         Phi22 = E0 / (kk0**2) * (kk0 - k2**2 - 2 * k2 * k30 * zeta2 + (k1**2 + k2**2) * zeta2**2)
         Phi33 = E0 / (kk**2) * (k1**2 + k2**2)
-- 
2.43.0


From c6eaaadabb90ea4ec5572bf12b53e5fff959378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 13/26] fix: fields can be generated from a single-precision
 DRD model

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 88357ce..34a941a 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,7 +113,8 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.h_ref
+            dtype = next(self.OPS.tauNet.parameters()).dtype
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=dtype) * self.h_ref
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From 42de50cfa320e8cc5db3fec6fcff885c3069f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 14/26] fix: coherence records are placed by their indices, not
 by their position in the file

---
 drdmannturb/spectra_fitting/calibration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index dc82593..e7363ee 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1210,6 +1210,9 @@ class CalibrationProblem:
         print(f"Expected grid: {n_seps} x {n_freqs} = {n_seps * n_freqs}")
         print(f"Actual data points: {len(df)}")
 
+        # One record per cell (the last one wins), in grid order whatever order the file lists them in
+        df = df.drop_duplicates(subset=["sep_idx", "freq_idx"], keep="last").sort_values(["sep_idx", "freq_idx"])
+
         # Check if we have complete data
         expected_size = n_seps * n_freqs
         if len(df) != expected_size:
@@ -1223,8 +1226,8 @@ class CalibrationProblem:
 
             # Fill in the available data
             for _, row in df.iterrows():
-                i = int(row["sep_idx"])
-                j = int(row["freq_idx"])
+                i = sep_mapping.index.get_loc(row["sep_idx"])
+                j = freq_mapping.index.get_loc(row["freq_idx"])
                 if i < n_seps and j < n_freqs:
                     coh_u[i, j] = row["coh_u"]
                     coh_v[i, j] = row["coh_v"]
-- 
2.43.0


From 5f144616d15f53f306b49a81c95066de7f47668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 15/26] fix: a generator keeps its own copy of the grid arrays
 it was built from

---
 .../fluctuation_generation/fluctuation_field_generator.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 67a6c85..e8b163d 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -163,8 +163,9 @@ class FluctuationFieldGenerator:
             L = length_scale
             Gamma = time_scale
 
-        self.grid_dimensions = grid_dimensions
-        self.grid_levels = grid_levels
+        # Later blocks read these again: keep copies, so that a caller reusing its arrays does not change this field
+        self.grid_dimensions = np.array(grid_dimensions)
+        self.grid_levels = np.array(grid_levels)
         self.blend_num = blend_num
 
         # Expand on grid_levels parameter to get grid node counts in each direction
-- 
2.43.0


From 0ddf91b26a2cc682d0fd6a9caf195c3fdfa44acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:06 +0000
Subject: [PATCH 16/26] fix: a training log with a single loss term can be
 plotted

---
 drdmannturb/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index 55f7dd7..3ebb1f1 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -190,11 +190,11 @@ def plot_loss_logs(log_file: str | Path):
 
     with plt.style.context("bmh"):
         plt.rcParams.update({"font.size": 8})
-        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True)
+        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True, squeeze=False)
         for idx, (scalar_tag, vals) in enumerate(reversed(vals_tot.items())):
-            ax[idx].plot(vals[1:])
-            ax[idx].set_yscale("log")
-            ax[idx].set_title(scalar_tag)
+            ax[0, idx].plot(vals[1:])
+            ax[0, idx].set_yscale("log")
+            ax[0, idx].set_title(scalar_tag)
 
         fig.text(0.5, 0.01, "Wolfe Iterations", ha="center")
         fig.tight_layout()
-- 
2.43.0


From 2c99cb79d160e7b26f56ef85a0d4f5d371010c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 17/26] fix: exported VTK files have a readable grid spacing

---
 .../fluctuation_generation/fluctuation_field_generator.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index e8b163d..52bc4f2 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -527,7 +527,8 @@ class FluctuationFieldGenerator:
         """
         from pyevtk.hl import imageToVTK
 
-        spacing = tuple(self.grid_dimensions / (2.0**self.grid_levels + 1))
+        # plain floats: numpy scalars would be written into the file as "np.float64(...)"
+        spacing = tuple(float(h) for h in self.grid_dimensions / (2.0**self.grid_levels + 1))
 
         wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])
 
-- 
2.43.0


From 13b565d69b27deaf3932593d7f3e2d8efb3d9453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 18/26] fix: coherence data with a single frequency can be
 fitted

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index e7363ee..86948f8 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -565,7 +565,7 @@ class CalibrationProblem:
             # Identify non-zero frequencies to avoid NaN issues at f=0
             min_freq = 1e-6  # Adjust this threshold if needed based on your frequency resolution
             nonzero_mask = torch.tensor(self.coherence_frequencies) > min_freq
-            coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask]
+            coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask.numpy()]
 
             coherence_k1 = (factor * torch.tensor(coherence_freq_nonzero, dtype=torch.get_default_dtype())) / U_ref
 
-- 
2.43.0


From be1d981f08cdd1f59044c9b89dbe667315493566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 19/26] fix: a failed VTK export leaves earlier and later
 exports intact

---
 .../fluctuation_field_generator.py                       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 52bc4f2..1040ad2 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -1,6 +1,8 @@
 """Wind generation functionality forward facing API."""
 
+import os
 import pickle
+import tempfile
 from collections.abc import Callable
 from math import ceil
 from os import PathLike
@@ -537,7 +539,12 @@ class FluctuationFieldGenerator:
             "wind": wind_field_vtk,
         }
 
-        imageToVTK(str(filepath), cellData=cellData, spacing=spacing)
+        # Written aside and moved into place: a failed export neither costs the file of an earlier one, nor can its
+        # left-over buffers reach the file of a later one
+        folder, name = os.path.split(str(filepath))
+        with tempfile.TemporaryDirectory(dir=folder or ".") as aside:
+            written = imageToVTK(os.path.join(aside, name), cellData=cellData, spacing=spacing)
+            os.replace(written, os.path.join(folder, os.path.basename(written)))
 
     def evaluate_divergence(self, spacing: tuple | np.ndarray, field: np.ndarray | None = None) -> np.ndarray:
         r"""Evaluate the point-wise divergence of a generated fluctuation vector field.
-- 
2.43.0


From 8290a51d73658dccca7c7e47c418b351bd331383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:33 +0000
Subject: [PATCH 20/26] fix: large-scale studies average over the requested
 grid, not the computational one

---
 .../fluctuation_generation/low_frequency/large_plot.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index faa0302..41f839f 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -20,8 +20,8 @@ def _run_single_mesh(exponent, config, num_realizations=5):
     local_config["exp2"] = exponent
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros_like(gen.X)
+    u2 = np.zeros_like(gen.Y)
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
@@ -108,8 +108,8 @@ def _run_single_domain_size(domain_factor, config, num_realizations=5):
     local_config["L2_factor"] = domain_factor
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros_like(gen.X)
+    u2 = np.zeros_like(gen.Y)
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
-- 
2.43.0


From 46449730001a9b2a0334d1d8c1d8004c56569fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:33 +0000
Subject: [PATCH 21/26] fix: mesh study plots each completed run against its
 own exponent

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 41f839f..b680f1c 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -71,6 +71,7 @@ def mesh_independence_study(low=4, high=12):
 
     if results:
         results.sort(key=lambda x: x[0])
+        exponents = np.array([r[0] for r in results])  # Only those whose run completed
         u1_norms = np.array([r[1] for r in results])
         u2_norms = np.array([r[2] for r in results])
         u1_vars = np.array([r[3] for r in results])
-- 
2.43.0


From e021cba95eb874058f94819564c7ebfb71d5c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 22/26] fix: plot shows the fitted uv and vw data in the panels
 of their own component

---
 drdmannturb/spectra_fitting/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 86948f8..422e6e3 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -836,7 +836,7 @@ class CalibrationProblem:
 
             k1_data_pts = self.data["k1"]
 
-            # Use the same flattening logic as in calibrate() method
+            # Flattened in the order data_component_map expects
             data_ops = self.data["ops"]
 
             if self.prob_params.num_components == 3:
@@ -863,8 +863,8 @@ class CalibrationProblem:
                         data_ops[:, 1, 1],  # vv
                         data_ops[:, 2, 2],  # ww
                         data_ops[:, 0, 2],  # uw
-                        data_ops[:, 1, 2],  # vw
                         data_ops[:, 0, 1],  # uv
+                        data_ops[:, 1, 2],  # vw
                     )
                 )
 
-- 
2.43.0


From 1ad31ba65380da21245fa7fa08af3ea4303b6e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:14 +0000
Subject: [PATCH 23/26] fix: coherence plot shows the model at its current
 parameters, not before the fit

---
 drdmannturb/spectra_fitting/calibration.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 422e6e3..f1e2110 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1101,11 +1101,9 @@ class CalibrationProblem:
             coherence_labels = ["u", "v", "w"]
             colors = ["royalblue", "crimson", "forestgreen"]
 
-            # Get model coherence if available
-            if hasattr(self, "model_coherence_u"):
-                model_coherence = [self.model_coherence_u, self.model_coherence_v, self.model_coherence_w]
-            else:
-                model_coherence = [None, None, None]
+            # Model coherence for the current parameters
+            self.model_coherence_u, self.model_coherence_v, self.model_coherence_w = self._compute_model_coherence()
+            model_coherence = [self.model_coherence_u, self.model_coherence_v, self.model_coherence_w]
 
             # Plot for each selected spatial separation
             for row in range(4):  # 4 spatial separations
-- 
2.43.0


From a7eed37c72f85600aad1d80b3511858471b2e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:43 +0000
Subject: [PATCH 24/26] fix: plot every logged loss of a long run

The event accumulator keeps a random sample of at most 10000 scalars per tag
by default, so a run with more loss evaluations was plotted with gaps.
---
 drdmannturb/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index 3ebb1f1..9bacf08 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -177,7 +177,7 @@ def plot_loss_logs(log_file: str | Path):
     log_file : Union[str, Path]
        Full path to training log to be visualized.
     """
-    event_acc = EventAccumulator(log_file)
+    event_acc = EventAccumulator(log_file, size_guidance={"scalars": 0})  # 0: keep every record, do not subsample
     event_acc.Reload()
 
     training_scalars = event_acc.Tags()["scalars"]
-- 
2.43.0


From a48dba2871c383e8f77798e9595f7c6930d0fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 25/26] fix: draw an anisotropy study of a single angle

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index b680f1c..dcb8c15 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -750,7 +750,7 @@ def anisotropy_study(base_config, psi_degrees, num_realizations=10, do_plot=True
     # --- Setup Figure ---
     fig, axs = None, None
     if do_plot:
-        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True)
+        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True, squeeze=False)
         fig.suptitle(r"Generated Velocity Fields for different $\psi$ angles", fontsize=14)
     elif not do_plot:
         print("Plotting disabled.")
-- 
2.43.0


From f556228aae758dc52edc3dc05889a93d0e357d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 26/26] fix: analytical 2D spectrum missed the peak of its
 integrand for large length scales

---
 .../low_frequency/fluctuation_field_generator.py          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 4ff02af..8331f41 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -859,6 +859,14 @@ class LowFreqGenerator:
                 F22_res_arr[i], F22_err_arr[i] = 0.0, 0.0
                 continue
 
+            # The integrands peak around zero, on scales (k1 and 1/L) that the quadrature would step over unaided
+            scale = min(abs(k1_val), 1 / _L_2d)
+            if scale < integration_limit:
+                breaks = np.geomspace(scale, integration_limit, 12)[:-1]
+                quad_kwargs["points"] = [0.0, *breaks, *-breaks]
+            else:
+                quad_kwargs["points"] = [0.0]
+
             try:
                 F11_res_arr[i], F11_err_arr[i] = integrate.quad(
                     _integrand11, -integration_limit, integration_limit, args=(k1_val,), **quad_kwargs
-- 
2.43.0

