From b4238584bd31612b543c561e1f98f7a67138901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 01/34] fix: label the rows of Simulator.to_dataframe with the
 batch member they belong to

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..e4b3f11 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))  # Rows are ordered by step, then batch
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From 8b75e4116a2ba07d81ee98ad294880bca1684b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 02/34] fix: allow update_parameters on parameters which
 already hold a batch

---
 moirae/models/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..2d2f0ec 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,12 +395,12 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = cur_value.shape[-1]  # First dimension is the batch
 
             # Get the parameters to use
             end = pos + num_params
             if pos + num_params > values.shape[-1]:
-                raise ValueError(f'Required at least {end} values, but only provided {len(values)}')
+                raise ValueError(f'Required at least {end} values, but only provided {values.shape[-1]}')
             new_value = values[:, pos:end]
             setattr(model, attr, new_value)
 
@@ -409,7 +409,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
 
         # Check to make sure all were used
         if end != values.shape[-1]:
-            raise ValueError(f'Did not use all parameters. Provided {len(values)}, used {end}')
+            raise ValueError(f'Did not use all parameters. Provided {values.shape[-1]}, used {end}')
 
     def make_copy(self, values: np.ndarray, names: Optional[Sequence[str]] = None) -> Self:
         """
-- 
2.43.0


From eb26c289a165b34e3d661ae5c37420739ef71667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 03/34] fix: compute the OCV when only its temperature
 dependence is batched

---
 moirae/models/ecm/components.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..2f01965 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -135,9 +135,10 @@ class OpenCircuitVoltage(HealthVariable):
         """
         ocv = self.ocv_ref.get_value(soc=soc)
         if temp is not None:
-            T_ref = self.ocv_ref.reference_temperature
-            delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            # Place the batch of the reference temperature along the same axis as that of the OCV
+            T_ref = self.ocv_ref.reference_temperature[:, :, None]  # shape (ocv_batch, 1, 1)
+            delta_T = np.array(temp) - T_ref
+            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
 
     def __call__(self,
-- 
2.43.0


From f1fd77601011948e41193f11087dea4aaf2fe685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 04/34] fix: compute resistances when the temperature
 dependence factor is batched

---
 moirae/models/ecm/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 2f01965..d789534 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,9 +61,9 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
-        gamma = self.temperature_dependence_factor
+        gamma = self.temperature_dependence_factor[:, :, None]  # shape (internal_batch, 1, 1)
         deltaT = np.array(temp) - self.reference_temperature
         new_value = reference_value * np.exp(- gamma * deltaT)
         return new_value
-- 
2.43.0


From e381281f8be1cd42af75f79370cd22ef17d8fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 05/34] fix: interpolate with the batch size of the base
 values, not that of other parameters

---
 moirae/models/ecm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..ffbf68f 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -70,7 +70,7 @@ class SOCInterpolatedHealth(HealthVariable):
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
             soc_dim = soc.shape[1]
-        internal_batch_size = self.batch_size
+        internal_batch_size = self.base_values.shape[0]  # Other parameters may be batched differently
 
         # Special case: no interpolation
         if self.base_values.shape[-1] == 1:
-- 
2.43.0


From 62bba44ca83633ccbedddeda378c12520986cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 06/34] fix: allow a batch of hysteresis approach rates

---
 moirae/models/ecm/components.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index d789534..7c7d0b4 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -1,7 +1,7 @@
 """Models for the components of circuits"""
 from typing import List, Optional, Union
 
-from pydantic import Field
+from pydantic import Field, field_validator
 import numpy as np
 
 from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
@@ -156,5 +156,11 @@ class HysteresisParameters(SOCInterpolatedHealth):
         Field(
             description='Values of maximum hysteresis at specified SOCs. Units: V')
     gamma: ScalarParameter = Field(default=0.,
-                                   description='Exponential approach rate. Units: 1/V',
-                                   ge=0.)
+                                   description='Exponential approach rate. Units: 1/V')
+
+    @field_validator('gamma', mode='after')
+    @classmethod
+    def _check_gamma(cls, value: np.ndarray) -> np.ndarray:
+        if np.any(value < 0):
+            raise ValueError('Exponential approach rate must be greater than or equal to 0')
+        return value
-- 
2.43.0


From 65815d76d2b28754be20600cbd4a2bbd48cd2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 07/34] fix: support RC elements with different batch sizes

---
 moirae/models/ecm/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..af22e06 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -75,8 +75,9 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            tau = np.array(np.broadcast_arrays(
+                *[RC.time_constant(soc=soc_k, temp=temp_k) for RC in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -179,11 +180,11 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            rc_rs = np.array(np.broadcast_arrays(
+                *[rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From 141776f5eda03d1b5576268195e1a919d4b8c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 08/34] fix: do not share parameters between the RC elements of
 the ECM template

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From 7a1c537acd7ca550755636f259262cffe7165578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 09/34] fix: read SOC pinpoints back from JSON

---
 moirae/models/ecm/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index ffbf68f..2adc57c 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -1,8 +1,8 @@
-from typing import List, Optional, Union, Literal, Callable, Iterator
+from typing import Any, List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import Field, field_serializer, field_validator
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
@@ -18,6 +18,12 @@ class SOCInterpolatedHealth(HealthVariable):
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
 
+    @field_validator('soc_pinpoints', mode='before')
+    @classmethod
+    def _validate_pinpoints(cls, value: Any) -> Any:
+        # Accept lists, which is how pinpoints are written to JSON
+        return np.array(value) if isinstance(value, (list, tuple)) else value
+
     @field_serializer('soc_pinpoints', when_used='json-unless-none')
     def _serialize_numpy(self, value: np.ndarray):
         return value.tolist()
-- 
2.43.0


From 1efee8634ceee137089857cc2ca3edb7c8f187aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 10/34] fix: start the current ramp from the previous current
 when updating RC elements

---
 moirae/models/ecm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index af22e06..29c5419 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -91,7 +91,7 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * (delta_t + tau))))  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From 49f738ad36f6e3c7616e6a94da033ec95b79de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 11/34] fix: keep the state unchanged in linear mode when no
 time has passed

---
 moirae/models/ecm/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 29c5419..6026993 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -50,7 +50,8 @@ class EquivalentCircuitModel(CellModel):
         current_k = previous_inputs.current  # shape (current_batch, 1)
         temp_k = previous_inputs.temperature  # shape (temp_batch, 1)
         current_kp1 = new_inputs.current  # shape (current_batch, 1)
-        current_slope = np.atleast_2d(0.0) if self.current_behavior == 'constant' \
+        # No charge is transferred if no time has passed, in which case the slope has no effect
+        current_slope = np.atleast_2d(0.0) if self.current_behavior == 'constant' or np.all(delta_t == 0) \
             else (current_kp1 - current_k) / delta_t  # shape (trans_batch, 1)
 
         # We will assume that all health parameters remain constant between time
@@ -109,7 +110,7 @@ class EquivalentCircuitModel(CellModel):
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
         # We need to figure out if the current changes sign during this process
 
-        if current_k * current_kp1 >= 0 or self.current_behavior == 'constant':
+        if current_k * current_kp1 >= 0 or np.all(current_slope == 0):
             hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
                                                     M=M,
                                                     kappa=kappa,
-- 
2.43.0


From a1ac389fb8d297bc414952def152f3af092fc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 12/34] fix: evolve hysteresis when the current ramps up from
 rest

---
 moirae/models/ecm/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 6026993..4949031 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -102,9 +102,9 @@ class EquivalentCircuitModel(CellModel):
         # Recall that, if charging, than M has to be >0, but, if dischargin, it
         # has to be <0. The easiest way to check for that is to multiply by the
         # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
+        # If the current ramps up from rest, use the sign it takes after the start of the interval
+        direction = current_kp1 if np.all(current_k == 0) and self.current_behavior != 'constant' else current_k
+        M = M * np.sign(direction)  # shape (h0_batch, trans_batch, 1)
 
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-- 
2.43.0


From 0f5e45bdd4aa8508d84f414471cd5a0d33ba0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 13/34] fix: let hysteresis approach its limit when the current
 ramps down to zero

---
 moirae/models/ecm/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 2adc57c..d23bfd4 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -146,13 +146,11 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    i_end = i0 + (alpha * dt)
+    assert i0 * i_end >= 0 or np.isclose(i_end, 0, atol=1e-9 * np.abs(i0)), 'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
-    exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
-        exp_factor = -exp_factor
-    exp_factor = np.exp(exp_factor)
+    # Hysteresis decays towards its asymptotic value whichever the sign of the current
+    exp_factor = np.exp(-exp_factor * np.abs(i0 + (0.5 * alpha * dt)))
     h_dt = exp_factor * h0
     h_dt = h_dt + ((1 - exp_factor) * M)
     return h_dt
-- 
2.43.0


From 1a0273c61728decc63d9285f0fa624c5da56631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 14/34] fix: handle singular and indefinite covariance matrices
 in the UKF

---
 moirae/estimators/online/filters/kalman/unscented.py | 7 ++++++-
 moirae/estimators/online/filters/kalman/utils.py     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 53df156..32d56e9 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -206,7 +206,12 @@ class UnscentedKalmanFilter(BaseFilter):
 
         # Sigma points are the augmented "mean" + each individual row of the transpose of the Cholesky decomposition of
         # Cov_aug, with a weighing factor of plus and minus gamma_param
-        sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        try:
+            sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        except np.linalg.LinAlgError:
+            # The decomposition fails if some of the variances are 0, but the eigenvectors still provide a square root
+            eigenvalues, eigenvectors = np.linalg.eigh(cov_aug)
+            sqrt_cov_aug = np.sqrt(np.clip(eigenvalues, 0, None))[:, None] * eigenvectors.T
         aux_sigma_pts = np.vstack((np.zeros((self._aug_len,)),
                                    self.gamma_param * sqrt_cov_aug,
                                    -self.gamma_param * sqrt_cov_aug))
diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..d77d09b 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -37,7 +37,7 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     """
     # Perform singular value decomposition
     _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
     return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
 
 
-- 
2.43.0


From 27824e3d5302698ff23fbff2f2852feb12da2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 15/34] fix: report the state of the joint estimator in the
 coordinates of the model

---
 moirae/estimators/online/joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..cd028ff 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,10 +42,10 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
+        joint_state = self.filter.hidden
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
             hidden_states=np.atleast_2d(joint_state.get_mean()))
         return estimated_transient, estimated_asoh
-- 
2.43.0


From 75875625d11e2cf266acfdc07d9c5ad892082789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 16/34] fix: combine the transient and A-SOH distributions in
 DualEstimator.state

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From db05a3d9b2e03131aeff4ccdaa80dc17678719d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 17/34] fix: update only the A-SOH parameters being estimated
 by the DualEstimator

---
 moirae/estimators/online/dual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..8ab75e7 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,8 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(),
+                                             names=self.asoh_wrapper.asoh_inputs)
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From a6ffc8ec26af75e267f6fdabe16fcfb61d34e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 18/34] fix: evaluate batches of parameters in MeanSquaredLoss

---
 moirae/estimators/offline/loss.py | 214 +++++++++++++++---------------
 1 file changed, 107 insertions(+), 107 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..c39d9c8 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
-- 
2.43.0


From f913ac6068437d4b9f86bdda2c5183fef5cf6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 19/34] fix: write and read per-cycle estimates when cycle
 numbers are not consecutive

---
 moirae/interface/hdf5.py | 588 +++++++++++++++++++--------------------
 1 file changed, 294 insertions(+), 294 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..c659ace 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,294 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by at least one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks steps or cycles for which no data was written
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From 2b2d2d6fc62bacbd505042bc980cbd83db69e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 20/34] fix: report standard deviations rather than variances
 from run_online_estimate

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..cd119c3 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -130,9 +130,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From 4c1e3c3443b1ef98cb8ab96432546a67ab451e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 21/34] fix: let resizable HDF5 outputs grow past their
 expected size

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index c659ace..2beadc8 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -162,7 +162,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 if self.resizable:
                     starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
                 else:
                     my_kwargs = {'shape': (expected, *value.shape)}
 
-- 
2.43.0


From ae754a636f9090a84e3612fbd3cf0e03d94e99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 22/34] fix: write estimates to HDF5 for datasets without cycle
 numbers

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index cd119c3..5e7f1ab 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -82,7 +82,7 @@ def run_online_estimate(
             raise ValueError('No time series data in the provided dataset')
 
         num_rows = dataset.raw_data.shape[0]
-        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 0
+        num_cycles = int(dataset.raw_data['cycle_number'].max()) + 1 if 'cycle_number' in dataset.raw_data else 1
 
         def _row_iter(d):
             for _, r in d.iterrows():
@@ -136,7 +136,7 @@ def run_online_estimate(
 
             # Store estimates
             if hdf5_output is not None:
-                h5_writer.append_step(row['test_time'], row['cycle_number'], new_state, new_outputs)
+                h5_writer.append_step(row['test_time'], row.get('cycle_number', 0), new_state, new_outputs)
 
     # Compile the outputs into a dataframe
     output = None
-- 
2.43.0


From 3f20b21ca44253131e1bcd711f6afd4e2148a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 23/34] fix: start run_online_estimate from the inputs in the
 first row of the dataset

---
 moirae/estimators/online/__init__.py | 9 +++++++++
 moirae/estimators/online/dual.py     | 6 ++++++
 moirae/estimators/online/joint.py    | 5 +++++
 moirae/interface/__init__.py         | 4 ++--
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/__init__.py b/moirae/estimators/online/__init__.py
index c80fc59..daa6ba6 100644
--- a/moirae/estimators/online/__init__.py
+++ b/moirae/estimators/online/__init__.py
@@ -86,6 +86,15 @@ class OnlineEstimator:
         """Multivariate probability distribution for all state variables"""
         raise NotImplementedError()
 
+    def set_previous_inputs(self, inputs: InputQuantities):
+        """
+        Set the inputs applied to the system before the next step
+
+        Args:
+            inputs: Inputs at the beginning of the interval covered by the next step
+        """
+        self._inputs = inputs.model_copy(deep=True)
+
     @abstractmethod
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         """
diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 8ab75e7..e58a94a 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -92,6 +92,12 @@ class DualEstimator(OnlineEstimator):
         transient_converted, asoh_converted = self._get_converted_states()
         return transient_converted.combine_with((asoh_converted,))
 
+    def set_previous_inputs(self, inputs: InputQuantities):
+        super().set_previous_inputs(inputs)
+        for filt in (self.trans_filter, self.asoh_filter):
+            filt.controls = convert_vals_model_to_filter(inputs).convert(
+                conversion_operator=filt.model.control_conversion, inverse=True)
+
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index cd028ff..aacb5c0 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -44,6 +44,11 @@ class JointEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
+    def set_previous_inputs(self, inputs: InputQuantities):
+        super().set_previous_inputs(inputs)
+        self.filter.controls = convert_vals_model_to_filter(inputs).convert(
+            conversion_operator=self.joint_model.control_conversion, inverse=True)
+
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         joint_state = self.filter.hidden
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 5e7f1ab..a5239ec 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -97,9 +97,9 @@ def run_online_estimate(
     else:
         raise ValueError(f'Unrecognized data type: {type(dataset)}')
 
-    # Update the initial inputs for the
+    # Update the initial inputs for the estimator
     initial_input, _ = row_to_inputs(next(row_iter))
-    estimator._u = initial_input
+    estimator.set_previous_inputs(initial_input)
 
     # Initialize the output arrays
     if output_states:
-- 
2.43.0


From 0364ba14526b94b8a9a8db3d1bea369b82928478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 24/34] fix: project asymmetric matrices on the positive
 semi-definite ones by their symmetric part

---
 moirae/estimators/online/filters/kalman/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index d77d09b..14ff505 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -35,10 +35,12 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     Args:
         Sig: matrix that should be positive semi-definite but isn't
     """
+    # The nearest matrix is that to the symmetric part of the one provided
+    sym_matrix = (Sig + Sig.T) / 2
     # Perform singular value decomposition
-    _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
+    _, S_diagonal, V_complex_conjugate = np.linalg.svd(sym_matrix)
     H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
-    return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
+    return (2 * sym_matrix + H_matrix + H_matrix.T) / 4
 
 
 def calculate_gain_matrix(cov_xy: np.ndarray, cov_y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 55e0a5595a469c7a41d62a6bc9d09e38acacd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 25/34] fix: do not give the arguments meant for the model to
 the correction update of the UKF

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 32d56e9..45fdaee 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -181,7 +181,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1: perform estimation update
         x_k_minus, y_k, cov_xy = self.estimation_update(sigma_pts=sigma_pts, new_controls=new_controls, **kwargs)
         # Step 2: correction step, adjust hidden states based on new measurement
-        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements, **kwargs)
+        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements)
         # Don't forget to update the internal control!
         self.controls = new_controls.model_copy(deep=True)
         # Return
-- 
2.43.0


From 6baee67c7ca33bde0eb756183da321ca673befcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 26/34] fix: allow estimating parameters which do not affect
 the predicted measurements

---
 .../online/filters/kalman/unscented.py        | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 45fdaee..b1a874f 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -258,7 +258,7 @@ class UnscentedKalmanFilter(BaseFilter):
                                                    previous_controls=u_old.get_mean(),
                                                    new_controls=new_controls.get_mean(),
                                                    **kwargs)
-        return x_update
+        return self._expand_batch(x_update, len(hidden_states))
 
     def _assemble_unscented_estimate(self, samples: np.ndarray) -> Dict:
         """
@@ -293,7 +293,24 @@ class UnscentedKalmanFilter(BaseFilter):
         """
         y_preds = self.model.predict_measurement(hidden_states=updated_hidden_states,
                                                  controls=controls.get_mean(), **kwargs)
-        return y_preds
+        return self._expand_batch(y_preds, len(updated_hidden_states))
+
+    @staticmethod
+    def _expand_batch(values: np.ndarray, num_samples: int) -> np.ndarray:
+        """
+        Function to provide one row per sample when the model returns a single row because none of its results depend on
+        the quantities which differ between samples
+
+        Args:
+            values: results of the model
+            num_samples: number of samples given to the model
+
+        Returns:
+            array with one row per sample
+        """
+        if values.shape[0] == 1 and num_samples > 1:
+            return np.repeat(values, num_samples, axis=0)
+        return values
 
     def estimation_update(self,
                           sigma_pts: np.ndarray,
-- 
2.43.0


From a85b09237435cb585848444e91ba1c2df33bec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 27/34] fix: combine Gaussians supplied through an iterator

---
 moirae/estimators/online/filters/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 9238b00..47b65d6 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -164,6 +164,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
         return self.covariance.copy()
 
     def combine_with(self, random_dists: Iterable[Self]) -> Self:
+        random_dists = list(random_dists)  # It could be an iterator, and is traversed twice
         combined_mean = [self.get_mean(),]
         combined_mean += [gaussian.get_mean() for gaussian in random_dists]
         combined_cov = [self.get_covariance(),]
-- 
2.43.0


From ce11b544a1c4aa8c193ad8f2ce7159958c8e2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 28/34] fix: check for existing estimates before changing the
 metadata of an HDF5 file

---
 moirae/interface/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 2beadc8..daed98c 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -128,6 +128,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         self._check_if_ready()
         if not self.resizable and (expected_steps is None or expected_cycles is None):
             raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+        for where in ['per_timestep', 'per_cycle']:  # Check before altering anything in the file
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
 
         # Put the metadata in the attributes of the group
         self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
@@ -156,8 +159,6 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
 
             # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
             my_group = self._group_handle.create_group(where)
             for key, value in to_insert.items():
                 if self.resizable:
-- 
2.43.0


From 5902c37920ddb86a9bfb8e2edbdde0c37f4e8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 29/34] fix: do not overwrite the first estimates when an HDF5
 writer is opened again

---
 moirae/interface/hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index daed98c..832a2bb 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -91,7 +91,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         if self.storage_key not in root:
             root.create_group(self.storage_key)
         self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        self.position = None  # TODO (wardlt): Support re-opening files for writing phase
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -169,6 +169,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
 
                 my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
 
+        # Start from the first step
+        self.position = 0
+
     def append_step(self,
                     time: float,
                     cycle: int,
@@ -184,6 +187,8 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             output: Outputs predicted from the estimator
         """
         self._check_if_ready()
+        if self.position is None:
+            raise ValueError('Call `prepare` before writing estimates. Adding to existing estimates not yet supported')
 
         # Write the column to the appropriate part of the HDF5 file
         # TODO (wardlt): Introduce a batched write implementation.
-- 
2.43.0


From a0de01a89992daf14cb8c71ad2ca7f6037f038bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 30/34] fix: reject cell datasets whose raw data are missing
 when extracting the OCV

---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index f7678bd..bde56ef 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -74,7 +74,7 @@ class OCVExtractor(BaseExtractor):
 
     def check_data(self, data: CellDataset):
         # Check if there is a raw_data table
-        if 'raw_data' not in data.tables:
+        if data.tables.get('raw_data') is None:
             raise ValueError('`raw_data` table is required')
 
         # Compute the per-cycle capacity if unavailable
-- 
2.43.0


From 371c2deab3ebd222dcb0d205651867c815633d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 31/34] fix: keep the capacity a parameter when set in
 amp-seconds

---
 moirae/models/ecm/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 7c7d0b4..651d7b1 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -4,7 +4,7 @@ from typing import List, Optional, Union
 from pydantic import Field, field_validator
 import numpy as np
 
-from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
+from moirae.models.base import HealthVariable, ListParameter, ScalarParameter, enforce_dimensions
 from .utils import SOCInterpolatedHealth
 
 
@@ -25,7 +25,7 @@ class MaxTheoreticalCapacity(HealthVariable):
         """
         Sets the capacity based on specified value in Amp-seconds
         """
-        self.base_values = amp_seconds / 3600.
+        self.base_values = enforce_dimensions(amp_seconds, dim=0) / 3600.  # Keep it as a (batched) parameter
 
     @property
     def amp_hour(self) -> float:
-- 
2.43.0


From 3078e3ef913f17e4547dcab9ace10869919d997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 32/34] fix: do not share the health parameters and states
 given by users with the wrappers of the models

The estimators keep copies of these objects, but the wrappers which evaluate the models
kept references: changing the objects given to an estimator changed its predictions.
---
 moirae/estimators/online/utils/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..bfafd0b 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -66,10 +66,11 @@ class BaseCellWrapper(ModelWrapper):
         if transients.batch_size > 1:
             raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
 
-        self.transients = transients
+        # Keep copies, so that later changes to the objects provided by the user do not affect the predictions
+        self.transients = transients.model_copy(deep=True)
         self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
 
         # Capture the shape of the outputs
         self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-- 
2.43.0


From 2772ee3c958d4c9093b215853b761a07928275cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 33/34] fix: copy the arrays given by users to states, SOC
 grids, covariances and conversions

Other fields already hold copies, but these kept references or views: reusing or editing the array
afterwards changed the object, and objects made from the same array changed together.
---
 moirae/estimators/online/filters/conversions.py   | 2 +-
 moirae/estimators/online/filters/distributions.py | 2 +-
 moirae/models/base.py                             | 2 +-
 moirae/models/ecm/utils.py                        | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/moirae/estimators/online/filters/conversions.py b/moirae/estimators/online/filters/conversions.py
index 9077faa..8684b3d 100644
--- a/moirae/estimators/online/filters/conversions.py
+++ b/moirae/estimators/online/filters/conversions.py
@@ -133,7 +133,7 @@ class LinearConversionOperator(ConversionOperator):
             raise ValueError(f'Additive factor must be at most 2D, but, instead, is has shape {multi.ndim}!')
         if multi.ndim == 1:
             return np.diag(multi)
-        return multi
+        return multi.copy()
 
     @computed_field
     @property
diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 47b65d6..9928183 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -145,7 +145,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
         cov_shape = sigma.shape
         if len(cov_shape) != 2:
             raise ValueError('Covariance must be a 2D matrix, but shape provided was ' + str(cov_shape) + '!')
-        return sigma
+        return sigma.copy()
 
     @model_validator(mode='after')
     def fields_dim(self) -> Self:
diff --git a/moirae/models/base.py b/moirae/models/base.py
index 2d2f0ec..bf6f3d7 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -532,7 +532,7 @@ class GeneralContainer(BaseModel,
             field_len = current_field.shape[-1]
 
             end_index = begin_index + field_len
-            new_field_values = values[:, begin_index:end_index]
+            new_field_values = values[:, begin_index:end_index].copy()  # Do not share memory with the user
             setattr(self, field_name, new_field_values)
             begin_index = end_index
 
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index d23bfd4..8c6c4e9 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -21,8 +21,8 @@ class SOCInterpolatedHealth(HealthVariable):
     @field_validator('soc_pinpoints', mode='before')
     @classmethod
     def _validate_pinpoints(cls, value: Any) -> Any:
-        # Accept lists, which is how pinpoints are written to JSON
-        return np.array(value) if isinstance(value, (list, tuple)) else value
+        # Accept lists, which is how pinpoints are written to JSON, and do not share arrays with the user
+        return np.array(value) if isinstance(value, (list, tuple, np.ndarray)) else value
 
     @field_serializer('soc_pinpoints', when_used='json-unless-none')
     def _serialize_numpy(self, value: np.ndarray):
-- 
2.43.0


From d8f2946dd0bc30c33ae8ec5ee0ed0d27e5340577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 34/34] fix: restore the original line endings of the HDF5
 writer and the loss

---
 moirae/estimators/offline/loss.py | 214 +++++------
 moirae/interface/hdf5.py          | 600 +++++++++++++++---------------
 2 files changed, 407 insertions(+), 407 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index c39d9c8..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 832a2bb..f4ed33a 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,300 +1,300 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = None  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-        for where in ['per_timestep', 'per_cycle']:  # Check before altering anything in the file
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-        # Start from the first step
-        self.position = 0
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-        if self.position is None:
-            raise ValueError('Call `prepare` before writing estimates. Adding to existing estimates not yet supported')
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by at least one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks steps or cycles for which no data was written
-                continue
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = None  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+        for where in ['per_timestep', 'per_cycle']:  # Check before altering anything in the file
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+        # Start from the first step
+        self.position = 0
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+        if self.position is None:
+            raise ValueError('Call `prepare` before writing estimates. Adding to existing estimates not yet supported')
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by at least one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks steps or cycles for which no data was written
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0

