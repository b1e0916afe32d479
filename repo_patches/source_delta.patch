From 53e4c2671b69057c57dbdf0f16df99c7a84de7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:08 +0000
Subject: [PATCH 01/23] fix: save the best figure of merit with the user's sign
 when maximizing

---
 src/quocslib/communication/AllInOneCommunication.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d92a6fc..1ecc7d2 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -197,6 +197,9 @@ class AllInOneCommunication:
         """External call to update the controls"""
         if response_for_client is None:
             response_for_client = {}
+        if "FoM" in response_for_client:
+            # The algorithms work with the minimization convention, save the figure of merit as the user defined it
+            response_for_client["FoM"] = self.FoM_factor * response_for_client["FoM"]
         self.dump_obj.dump_controls(**self.controls_dict, **self.controls_names_dict, **response_for_client)
 
     def end_communication(self, results_dict: dict) -> None:
-- 
2.43.0


From eabe3bcab13b0bbc8f43dad99a5f1f305a9e8fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:08 +0000
Subject: [PATCH 02/23] fix: allow to dump the best controls of the AD
 algorithm in json format

---
 src/quocslib/utils/BestDump.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 2d1b59d..802ead4 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -32,6 +32,12 @@ class NumpyEncoder(json.JSONEncoder):
             # for some reason float128 can lead to the error:
             # TypeError: Object of type float128 is not JSON serializable
             return np.float64(obj)
+        elif hasattr(obj, "__array__"):
+            # e.g. the jax arrays of the AD algorithm, which are of complex type although the controls are real
+            obj = np.asarray(obj)
+            if np.iscomplexobj(obj) and not np.any(obj.imag):
+                obj = obj.real
+            return obj.tolist()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 196be38c25ed253eb3293a04b9c33f80fa6f03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:43 +0000
Subject: [PATCH 03/23] fix: Nelder-Mead without initial simplex starts from
 the given point

---
 src/quocslib/gradientfreemethods/GradientFreeTemplate.py | 1 +
 src/quocslib/gradientfreemethods/NelderMead.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
index e589f0a..dbb66c9 100644
--- a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
+++ b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
@@ -80,6 +80,7 @@ class GradientFreeTemplate(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 61b4c15..2ca37d4 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -81,6 +81,7 @@ class NelderMead(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
-- 
2.43.0


From 58386ee3de1066de66a8aa1a78f443d6b538793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 04/23] fix: DirectSearch reports the best parameters instead
 of the last evaluated ones

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e7194db..99ec4c2 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -292,6 +292,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         # Direct search method
         self._dsm_build()
+        # Keep the best parameters, and not the last evaluated ones, as the result of the optimization
+        self.controls.update_base_controls(self.best_xx)
 
     def _dsm_build(self):
         """
@@ -333,7 +335,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         final_dict = {
             "Figure of merit": self.FoM_factor * self.best_FoM,
-            "parameters": self.xx,
+            "parameters": self.controls.get_mean_value(),
             "terminate_reason": self.terminate_reason
         }
         return final_dict
-- 
2.43.0


From 558b4f6566fcd8f819d4f97e3d8893f391df8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 05/23] fix: AD does not add the best coefficients of the
 previous super-iteration again

---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 6be52c4..0ac2e44 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -136,6 +136,8 @@ class ADAlgorithm(OptimizationAlgorithm):
             self.super_it = super_it
             # Initialize the random super_parameters
             self.controls.select_basis()
+            # Start from the base controls: nothing has to be added if no record is found in this super-iteration
+            self.best_xx = self.controls.get_mean_value()
             #
             self.inner_run()
             #
-- 
2.43.0


From 2ab83bd3afa76b528e2d60949f1ca5a2db6b60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 06/23] fix: CMA-ES draws from the seeded random number
 generator of dCRAB

---
 src/quocslib/gradientfreemethods/CMAES.py            |  7 ++++++-
 .../optimizationalgorithms/dCRABAlgorithm.py         |  3 ++-
 src/quocslib/tools/randomgenerator.py                | 12 ++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 8e3f380..38645ac 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -52,6 +52,7 @@ class CMAES(DirectSearchMethod):
                 initial_simplex=None,
                 drift_comp_minutes=0.0,
                 drift_comp_num_average=1,
+                rng=None,
                 **kwargs) -> dict:
         """
         Function to run the direct search method
@@ -62,6 +63,7 @@ class CMAES(DirectSearchMethod):
         :param np.array initial_simplex: Starting population for CMA-ES
         :param float drift_comp_minutes: Compensate for drift after this number of minutes
         :param int drift_comp_num_average: Number of times the measurement for drift compensation is repeated
+        :param RandomNumberGenerator rng: Random number generator with the seed of the optimization
         :return dict: A dictionary with information about the search run
         """
 
@@ -71,6 +73,9 @@ class CMAES(DirectSearchMethod):
         # Set to false is_converged
         self.sc_obj.is_converged = False
 
+        # Standard normal numbers, reproducible if a seed is given
+        random_normal = np.random.randn if rng is None else rng.get_random_normal_numbers
+
         N = len(x0)
 
         xmean = x0
@@ -139,7 +144,7 @@ class CMAES(DirectSearchMethod):
                 # TR 2020_04_15: Hansen (2016) here also has arz: arz[:,k] = randn(N,)  standard normally
                 # distributed vector TR 2020_04_15: here we should make sigma dependent on the reasonable amplitude
                 # variation, right?
-                arx[:, k] = xmean + sigma * B.dot(D * np.random.randn(N, ))
+                arx[:, k] = xmean + sigma * B.dot(D * random_normal(N))
                 # Starting point at the beginning of the SI
                 if counteval == 0:
                     arx[:, k] = xmean
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 05e2725..e4d6469 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -263,7 +263,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                                         initial_simplex=start_simplex,
                                         sigma_v=self.controls.get_sigma_variation(),
                                         drift_comp_minutes=self.compensate_drift_after_minutes,
-                                        drift_comp_num_average=self.compensate_drift_num_average)
+                                        drift_comp_num_average=self.compensate_drift_num_average,
+                                        rng=self.rng)
         # Update the results
         [FoM, xx, self.terminate_reason, NfunevalsUsed
          ] = [result_l["F_min_val"], result_l["X_opti_vec"], result_l["terminate_reason"], result_l["NfunevalsUsed"]]
diff --git a/src/quocslib/tools/randomgenerator.py b/src/quocslib/tools/randomgenerator.py
index 0f02e2c..dc49e32 100644
--- a/src/quocslib/tools/randomgenerator.py
+++ b/src/quocslib/tools/randomgenerator.py
@@ -74,6 +74,18 @@ class RandomNumberGenerator:
             else:
                 return self.rng.random_sample(n)
 
+    def get_random_normal_numbers(self, n: int):
+        """
+        Return an array of random numbers from the standard normal distribution
+
+        :param n: Number of random numbers to generate
+        :return: Array of random numbers
+        """
+        if self.rng is None:
+            return np.random.randn(n)
+        else:
+            return self.rng.standard_normal(n)
+
 
 # def get_random_numbers(n: int, rng: np.random.Generator = None):
 #     """ Return an array of random numbers between 0 and 1 based on the random generator """
-- 
2.43.0


From 4f04bce010404d34f3421b4071dad4139d02ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 07/23] fix: DirectSearch uses the seed of the random number
 generator

---
 .../DirectSearchAlgorithm.py                  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 99ec4c2..27cc2e9 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -19,6 +19,7 @@ from quocslib.Controls import Controls
 from quocslib.gradientfreemethods.NelderMead import NelderMead
 from quocslib.utils.dynamicimport import dynamic_import
 from quocslib.tools.linearalgebra import simplex_creation
+from quocslib.tools.randomgenerator import RandomNumberGenerator
 import numpy as np
 from scipy.stats import norm
 
@@ -95,6 +96,18 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         else:
             self.re_evaluation_steps = None
 
+        # Seed for the random number generator
+        if "random_number_generator" in alg_parameters:
+            try:
+                seed_number = alg_parameters["random_number_generator"]["seed_number"]
+                self.rng = RandomNumberGenerator(seed_number=seed_number)
+            except (TypeError, KeyError):
+                default_seed_number = 2022
+                message = "Seed number must be an integer value. Set {0} as a seed number for this optimization".format(
+                    default_seed_number)
+                self.rng = RandomNumberGenerator(seed_number=default_seed_number)
+                self.comm_obj.print_logger(message, level=30)
+
         ###########################################################################################
         # Optimal algorithm variables ###########################################################
         ###########################################################################################
@@ -299,7 +312,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the direct search
         """
-        start_simplex = simplex_creation(self.controls.get_mean_value(), self.controls.get_sigma_variation())
+        start_simplex = simplex_creation(self.controls.get_mean_value(),
+                                         self.controls.get_sigma_variation(),
+                                         rng=self.rng)
         # Initial point for the Start Simplex
         x0 = self.controls.get_mean_value()
         # Initialize the best xx vector for this SI
@@ -310,7 +325,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                                         initial_simplex=start_simplex,
                                         sigma_v=self.controls.get_sigma_variation(),
                                         drift_comp_minutes=self.compensate_drift_after_minutes,
-                                        drift_comp_num_average=self.compensate_drift_num_average)
+                                        drift_comp_num_average=self.compensate_drift_num_average,
+                                        rng=self.rng)
         # Update the results
         [FoM, xx,
          self.terminate_reason] = [result_l["F_min_val"], result_l["X_opti_vec"], result_l["terminate_reason"]]
-- 
2.43.0


From 397c01b16df224a67c24dcb1af5e42f67c138710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 08/23] fix: controls with clashing names do not overwrite each
 other in the dumped file

---
 src/quocslib/utils/BestDump.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 802ead4..4787c78 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -77,6 +77,8 @@ class BestDump(AbstractDump):
             return
 
         controls_dict = {}
+        # Names of the other entries in the file and of the arguments of np.savez can not be used for the controls
+        reserved_names = {"file", "allow_pickle", *kwargs}
         pulse_index = 0
         pulse_names = []
         if "pulse_names" in {**kwargs}:
@@ -92,7 +94,7 @@ class BestDump(AbstractDump):
 
         for pulse, time_grid in zip(pulses, timegrids):
             pulse_name = pulse_names[pulse_index]
-            if pulse_name in controls_dict:
+            while pulse_name in reserved_names or pulse_name in controls_dict or "time_grid_for_" + pulse_name in controls_dict:
                 pulse_name = pulse_name + str(pulse_index + 1)
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
@@ -108,7 +110,7 @@ class BestDump(AbstractDump):
 
         for parameter in parameters:
             param_name = parameter_names[parameter_index]
-            if param_name in controls_dict:
+            while param_name in reserved_names or param_name in controls_dict:
                 param_name = param_name + str(parameter_index + 1)
             controls_dict[param_name] = parameter
             parameter_index += 1
-- 
2.43.0


From 089377d1f2ba883d86030af1eaab878f760624c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 09/23] fix: an evaluation with a non-zero status code never
 counts as a figure of merit

---
 src/quocslib/communication/AllInOneCommunication.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 1ecc7d2..f5402fa 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -158,13 +158,16 @@ class AllInOneCommunication:
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
         FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
-        # multiply by -1 if the optimization is a maximization
-        FoM_dict["FoM"] *= self.FoM_factor
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
         if status_code != 0:
             self.he_obj.is_user_running = False
+            # there is no valid FoM (it might be None), the evaluation can never be a record
+            FoM_dict["FoM"] = 10**10
+        else:
+            # multiply by -1 if the optimization is a maximization
+            FoM_dict["FoM"] *= self.FoM_factor
         return {"FoM_values": FoM_dict}
 
     def send_FoM_response(self, response_for_client: dict) -> None:
-- 
2.43.0


From 0aacb938fc5024d70e40018891e00a0166ed2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 10/23] fix: FilesUpdateFoM waits for the figure of merit file
 as long as max_time says

---
 src/quocslib/utils/FilesUpdateFom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index da90269..a68a7df 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -90,7 +90,7 @@ class FilesUpdateFoM(AbstractFoM):
         time_counter_max = self.max_time
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 1
+            time_counter += 0.5
             time.sleep(0.5)
             if time_counter >= time_counter_max:
                 return {"FoM": FoM, "status_code": -2}
-- 
2.43.0


From c14aedd094c6c7d0369b8c18018be7b23a8b8649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 11/23] fix: pw_evolution_AD returns the propagators it
 computes

---
 src/quocslib/timeevolution/piecewise_integrator_AD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/timeevolution/piecewise_integrator_AD.py b/src/quocslib/timeevolution/piecewise_integrator_AD.py
index 41728d0..2d91ec9 100644
--- a/src/quocslib/timeevolution/piecewise_integrator_AD.py
+++ b/src/quocslib/timeevolution/piecewise_integrator_AD.py
@@ -58,7 +58,7 @@ def pw_evolution_AD(U_store, drive, A, B, n_slices, dt):
         H = A
         for k in range(K):
             H = H + drive[k, i] * B[k]
-        U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
     return U_store
 
 
-- 
2.43.0


From f9feb42f9e97d31f7f0b4d8ab7a4fe547e869eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 12/23] fix: re-evaluation does not use the placeholder value
 of a stopped optimization

---
 .../optimizationalgorithms/DirectSearchAlgorithm.py       | 8 ++++++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py     | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 27cc2e9..21243c8 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -152,7 +152,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
             ################################################################################################################
             # Standard function evaluation - dCRAB without re-evaluation steps
             ################################################################################################################
-            if self.re_evaluation_steps is None:
+            if self.re_evaluation_steps is None or FoM >= self.FoM_maximum:
                 mu_1 = FoM
             else:
                 ############################################################################################################
@@ -187,7 +187,11 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # the optimization was stopped, there is no further measurement to take into account
+                    if FoM >= self.FoM_maximum:
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index e4d6469..929b2ae 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -313,7 +313,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
             ###########################################################################################################
             # Standard function evaluation - dCRAB without re-evaluation steps
             ###########################################################################################################
-            if self.re_evaluation_steps is None:
+            if self.re_evaluation_steps is None or FoM >= self.FoM_maximum:
                 mu_1 = FoM
             else:
                 #######################################################################################################
@@ -348,7 +348,11 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # the optimization was stopped, there is no further measurement to take into account
+                    if FoM >= self.FoM_maximum:
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
-- 
2.43.0


From 84485c7f4bc42c1da3312955bb2b77b2b50b6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 13/23] fix: drift compensation does not use the placeholder
 value of a stopped optimization

---
 .../gradientfreemethods/NelderMead.py         | 22 ++++++++++---------
 .../optimizationalgorithms/dCRABAlgorithm.py  |  6 ++++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 2ca37d4..953a06e 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -181,15 +181,16 @@ class NelderMead(DirectSearchMethod):
                     # new_FoM = fsim[0]
 
                     ###new_2
-                    for i in range(len(sim)):
-                        if i == 0:
-                            curr_best_fom = 0
-                            for j in range(drift_comp_num_average):
-                                curr_best_fom += func(sim[i], iterations)
-                            fsim[i] = curr_best_fom/drift_comp_num_average
-                        else:
-                            # here we only shift the rest of the entries by
-                            # the same constant change as the current best!
+                    curr_best_fom = 0
+                    for j in range(drift_comp_num_average):
+                        curr_best_fom += func(sim[0], iterations)
+                    # if the optimization was stopped in the meantime there is no new value for the current best
+                    is_running = self.callback is None or self.callback()
+                    if is_running:
+                        fsim[0] = curr_best_fom/drift_comp_num_average
+                        # here we only shift the rest of the entries by
+                        # the same constant change as the current best!
+                        for i in range(1, len(sim)):
                             fsim[i] = fsim[i] + (fsim[0] - prev_FoM)
                     new_FoM = fsim[0]
 
@@ -201,7 +202,8 @@ class NelderMead(DirectSearchMethod):
                     logger.info(message)
 
                     # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
-                    func(sim[0], iterations, fsim[0])
+                    if is_running:
+                        func(sim[0], iterations, fsim[0])
 
             # Increase the NM iteration
             iterations += 1
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 929b2ae..33d616f 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -231,7 +231,11 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         iteration, self.is_record, self.step_number = 0, True, 0
         new_FoM = 0
         for _ in range(self.compensate_drift_num_average):
-            new_FoM += self._routine_call(x0, iteration)
+            FoM = self._routine_call(x0, iteration)
+            # the optimization was stopped, keep the last best FoM
+            if FoM >= self.FoM_maximum:
+                return
+            new_FoM += FoM
         self.best_FoM = new_FoM / self.compensate_drift_num_average
         # Info message
         message = f"Previous best FoM: {self.FoM_factor*previous_best_FoM}, Current best FoM after drift " \
-- 
2.43.0


From 501279d81781be9483588491ddc90d0e2263d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 14/23] fix: the dictionary returned by the user's figure of
 merit is not modified

---
 src/quocslib/communication/AllInOneCommunication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index f5402fa..234eb44 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -157,7 +157,7 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
+        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
-- 
2.43.0


From 91d067e743905b35c78c1f0015a3116e3939a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 15/23] fix: ctrl + c stops the gradient based algorithms too

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e877651..a9792a8 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -116,7 +116,9 @@ class OptimizationAlgorithm:
         :return:
         """
         self.higher_order_terminate_reason = "User stopped the optimization"
-        self.dsm_obj.sc_obj.is_converged = True
+        # check if self.dsm_obj exits
+        if hasattr(self, "dsm_obj"):
+            self.dsm_obj.sc_obj.is_converged = True
         self.stop_optimization()
 
     def begin(self) -> None:
-- 
2.43.0


From 000effa658ab845e73f290ae214dbbce4cca3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 16/23] fix: GRAPE ends properly if no evaluation was
 successful

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 598fe38..6c98d6f 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -198,6 +198,8 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         random_variation = 2 * (0.5 - self.rng.get_random_numbers(self.controls.get_control_parameters_number()))
         # Scale it accordingly to the amplitude variation
         initial_variation = random_variation * self.controls.get_sigma_variation()
+        # Start from the base controls: nothing has to be added if no record is found
+        self.best_xx = self.controls.get_mean_value()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
         # Optimization with L-BFGS-B
-- 
2.43.0


From 5aef6cbb7f3956c9f8497c07342e1482833fd1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 17/23] fix: Liouvillian of a complex Hamiltonian

---
 src/quocslib/tools/linearalgebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/tools/linearalgebra.py b/src/quocslib/tools/linearalgebra.py
index 769f4af..927b7b6 100644
--- a/src/quocslib/tools/linearalgebra.py
+++ b/src/quocslib/tools/linearalgebra.py
@@ -118,7 +118,7 @@ def to_sup_op(H):
     """
     dim = np.size(H, 1)
     idm = np.eye(dim)
-    return np.kron(idm, H) - np.kron(H.T.conj(), idm)
+    return np.kron(idm, H) - np.kron(H.T, idm)
 
 
 def to_vec(rho):
-- 
2.43.0


From dc46dca4ccd7e5fb01a128c8c87fa8252b078784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:08 +0000
Subject: [PATCH 18/23] fix: create the Rosenbrock problem without arguments

---
 src/quocslib/optimalcontrolproblems/RosenbrockProblem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
index 84ae653..aaac300 100644
--- a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
+++ b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
@@ -29,6 +29,8 @@ class Rosenbrock(AbstractFoM):
         Initialize useful arguments
         :param args_dict: dictionary of arguments
         """
+        if args_dict is None:
+            args_dict = {}
         # Noise in the figure of merit
         self.is_noisy = args_dict.setdefault("is_noisy", False)
         self.noise_factor = args_dict.setdefault("noise_factor", 0.05)
-- 
2.43.0


From 9ab88de6517d5e0c083e6b5b99f94e56b0398507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:08 +0000
Subject: [PATCH 19/23] fix: ctrl + c stops the optimization which is running,
 not the one created last

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index a9792a8..8231087 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -125,6 +125,9 @@ class OptimizationAlgorithm:
         """
         Initialize the communication with the client
         """
+        # Another optimization might have been created after this one: ctrl + c has to stop the one which is running
+        if threading.current_thread() is threading.main_thread():
+            signal.signal(signal.SIGINT, self.handle_user_cancellation)
         # Open the log with the QuOCS version number
         self.comm_obj.print_logger("QuOCS version number: {0}".format(QUOCSLIB_VERSION))
         # Send starting message to the interface
-- 
2.43.0


From c6f02fc16f2829510b7ad4f34b8f0e4d5ad88bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 20/23] fix: average of the repeated measurements reported
 during re-evaluation

---
 .../optimizationalgorithms/DirectSearchAlgorithm.py         | 6 ++++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 21243c8..71d83dd 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -234,8 +234,10 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # The current evaluation is not counted in step_number yet
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 33d616f..95751c4 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -399,8 +399,10 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # The current evaluation is not counted in step_number yet
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
-- 
2.43.0


From 31031952ccbaeb2ce9ec952e4bc503da322e71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 21/23] fix: figure of merit sent to the interface has the
 user's sign when maximizing

---
 src/quocslib/communication/AllInOneCommunication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 234eb44..f9b442e 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -189,7 +189,7 @@ class AllInOneCommunication:
         self._print_general_log(iteration_number, FoM)
         self.update_controls(**response_for_client)
         if self.FoM_plot_signal is not None:
-            self.FoM_plot_signal.emit(iteration_number, FoM)
+            self.FoM_plot_signal.emit(iteration_number, self.FoM_factor * FoM)
 
     def _print_general_log(self, iteration_number: int, FoM: float):
         """Print the general log at each function evaluation"""
-- 
2.43.0


From 9fe0469c086481b7e971010da7f2e777cf16d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:03 +0000
Subject: [PATCH 22/23] fix: pulse, parameter and time names left out get their
 documented default

---
 src/quocslib/Controls.py                                    | 3 ++-
 .../optimizationalgorithms/OptimizationAlgorithm.py         | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/Controls.py b/src/quocslib/Controls.py
index 8e8481d..982ca15 100644
--- a/src/quocslib/Controls.py
+++ b/src/quocslib/Controls.py
@@ -76,7 +76,8 @@ class Controls:
         ###############################################
         self.times_number = len(times_list)
         for time in times_list:
-            self.times_obj_dictionary[time["time_name"]] = TimeParameter(**time)
+            time_obj = TimeParameter(**time)
+            self.times_obj_dictionary[time_obj.time_name] = time_obj
             # TODO Implement the time optimization here
 
         # Custom get control functions for AD
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 8231087..8d94be0 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -311,13 +311,13 @@ class OptimizationAlgorithm:
         """Return the names of the pulses, parameters and times"""
         pulse_name_list = []
         for pulse_dict in self.optimization_dict["pulses"]:
-            pulse_name_list.append(pulse_dict["pulse_name"])
+            pulse_name_list.append(pulse_dict.get("pulse_name", "pulse"))
         parameter_name_list = []
         for param_dict in self.optimization_dict["parameters"]:
-            parameter_name_list.append(param_dict["parameter_name"])
+            parameter_name_list.append(param_dict.get("parameter_name", "parameter"))
         time_name_list = []
         for time_dict in self.optimization_dict["times"]:
-            time_name_list.append(time_dict["time_name"])
+            time_name_list.append(time_dict.get("time_name", "time"))
         return {"pulse_names": pulse_name_list, "parameter_names": parameter_name_list, "time_names": time_name_list}
 
     def end(self) -> None:
-- 
2.43.0


From 9d589f4ca8556557f4791bba1494906638fc10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:03 +0000
Subject: [PATCH 23/23] fix: documented default of a parameter's initial value

---
 src/quocslib/parameters/BaseParameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/parameters/BaseParameter.py b/src/quocslib/parameters/BaseParameter.py
index 1a91420..20cfa22 100644
--- a/src/quocslib/parameters/BaseParameter.py
+++ b/src/quocslib/parameters/BaseParameter.py
@@ -25,7 +25,7 @@ class BaseParameter:
         self,
         map_index=-1,
         parameter_name="parameter",
-        initial_value=1.0,
+        initial_value=0.1,
         lower_limit=0.1,
         upper_limit=1.1,
         amplitude_variation=0.1,
-- 
2.43.0

