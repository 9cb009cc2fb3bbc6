From 3c6cb79c62081fd9ebcebe2ff2ecc41a6dafb719 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 01/48] fix: give each RC element made by provide_template its
 own parameters

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From 3c4b700ae4d90440602907d0f5997dcd910a6dca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 02/48] fix: allow SOC-interpolated parameters to be reloaded
 from JSON once pinpoints are set

---
 moirae/models/ecm/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..0a3d410 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -2,7 +2,7 @@ from typing import List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import Field, field_serializer, field_validator
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
@@ -18,6 +18,11 @@ class SOCInterpolatedHealth(HealthVariable):
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
 
+    @field_validator('soc_pinpoints', mode='before')
+    @classmethod
+    def _validate_pinpoints(cls, value):
+        return value if value is None else np.array(value, dtype=float)
+
     @field_serializer('soc_pinpoints', when_used='json-unless-none')
     def _serialize_numpy(self, value: np.ndarray):
         return value.tolist()
-- 
2.43.0


From 75bbbb0df6c15b9c3cd5de88135c5a2bd8c78ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 03/48] fix: update parameters which are already batched

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..7ca46ec 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,7 +395,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = np.shape(cur_value)[-1] if np.ndim(cur_value) else 1
 
             # Get the parameters to use
             end = pos + num_params
-- 
2.43.0


From fe78a8f838e7d0c7b213883ba5c7745a54d7c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 04/48] fix: interpolate parameters whose only batched
 attribute is not the interpolated one

---
 moirae/models/ecm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 0a3d410..d68aad7 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -75,7 +75,7 @@ class SOCInterpolatedHealth(HealthVariable):
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
             soc_dim = soc.shape[1]
-        internal_batch_size = self.batch_size
+        internal_batch_size = self.base_values.shape[0]
 
         # Special case: no interpolation
         if self.base_values.shape[-1] == 1:
-- 
2.43.0


From 148002e3056dd012172a94070917bd38f116ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 05/48] fix: evaluate resistances with batched temperature
 dependence factors

---
 moirae/models/ecm/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..3d91f5c 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,9 +61,9 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
-        gamma = self.temperature_dependence_factor
+        gamma = np.reshape(self.temperature_dependence_factor, (-1, 1, 1))  # Shape: (factor_batch, 1, 1)
         deltaT = np.array(temp) - self.reference_temperature
         new_value = reference_value * np.exp(- gamma * deltaT)
         return new_value
-- 
2.43.0


From 813ad925d684621b50c8403f6487af8a54452782 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 06/48] fix: evaluate OCV when the entropic term or
 temperatures are batched

---
 moirae/models/ecm/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 3d91f5c..d76a489 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -135,9 +135,9 @@ class OpenCircuitVoltage(HealthVariable):
         """
         ocv = self.ocv_ref.get_value(soc=soc)
         if temp is not None:
-            T_ref = self.ocv_ref.reference_temperature
-            delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            T_ref = np.reshape(self.ocv_ref.reference_temperature, (-1, 1, 1))  # Shape: (ref_batch, 1, 1)
+            delta_T = np.array(temp) - T_ref
+            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
 
     def __call__(self,
-- 
2.43.0


From 1288a9e78057cce9c36a31bed6c20b562ae320dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 07/48] fix: allow batches of hysteresis approach rates

---
 moirae/models/ecm/components.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index d76a489..5ed956e 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -1,7 +1,7 @@
 """Models for the components of circuits"""
 from typing import List, Optional, Union
 
-from pydantic import Field
+from pydantic import Field, field_validator
 import numpy as np
 
 from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
@@ -155,5 +155,11 @@ class HysteresisParameters(SOCInterpolatedHealth):
         Field(
             description='Values of maximum hysteresis at specified SOCs. Units: V')
     gamma: ScalarParameter = Field(default=0.,
-                                   description='Exponential approach rate. Units: 1/V',
-                                   ge=0.)
+                                   description='Exponential approach rate. Units: 1/V')
+
+    @field_validator('gamma', mode='after')
+    @classmethod
+    def _check_gamma(cls, value: np.ndarray) -> np.ndarray:
+        if np.any(value < 0):
+            raise ValueError('Input should be greater than or equal to 0')
+        return value
-- 
2.43.0


From f9c142df36e345f1231bcdd423185a309278b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 08/48] fix: always relax hysteresis towards its limit, also
 when the current ramps to or through zero

---
 moirae/models/ecm/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index d68aad7..695a654 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -145,13 +145,13 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    i_dt = i0 + (alpha * dt)
+    # Allow for currents that are zero at the end of the interval save for rounding errors
+    assert np.all((i0 * i_dt >= 0) | (np.abs(i_dt) <= 1e-9 * np.abs(i0))), 'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
     exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
-        exp_factor = -exp_factor
-    exp_factor = np.exp(exp_factor)
+    # The hysteresis always relaxes towards M, regardless of the sign of the current
+    exp_factor = np.exp(-np.abs(exp_factor))
     h_dt = exp_factor * h0
     h_dt = h_dt + ((1 - exp_factor) * M)
     return h_dt
-- 
2.43.0


From 14173ed95e6f409724f59ee4736992fb6d900425 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 09/48] fix: start linear current ramp through RC elements from
 the previous current

---
 moirae/models/ecm/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..4c738cb 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -90,7 +90,8 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            current_rc = current_kp1 if self.current_behavior == 'constant' else current_k  # shape (current_batch, 1)
+            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_rc - (current_slope * tau)))  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From e695e8580f967b8533e347ea27df023f9f501903 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 10/48] fix: support steps with no duration when current varies
 linearly

---
 moirae/models/ecm/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 4c738cb..3591b9e 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -51,7 +51,8 @@ class EquivalentCircuitModel(CellModel):
         temp_k = previous_inputs.temperature  # shape (temp_batch, 1)
         current_kp1 = new_inputs.current  # shape (current_batch, 1)
         current_slope = np.atleast_2d(0.0) if self.current_behavior == 'constant' \
-            else (current_kp1 - current_k) / delta_t  # shape (trans_batch, 1)
+            else np.where(delta_t == 0, 0., (current_kp1 - current_k) / np.where(delta_t == 0, 1., delta_t)
+                          )  # shape (trans_batch, 1), no slope if the step has no duration
 
         # We will assume that all health parameters remain constant between time
         # steps, independent of temperature or SOC variations. The value used
-- 
2.43.0


From 23b432a5b4fdc64a9036e5c1330264140d2c26a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 11/48] fix: treat each direction of current separately within
 a step, for each member of a batch of inputs

---
 moirae/models/ecm/__init__.py | 72 ++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 3591b9e..7505757 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -58,15 +58,27 @@ class EquivalentCircuitModel(CellModel):
         # steps, independent of temperature or SOC variations. The value used
         # will be the one at the previous SOC and temperature values.
 
+        # Current may flip sign if it varies linearly, in which case we deal with the intervals before and after it
+        #  crosses zero separately. The second interval is otherwise empty.
+        is_linear = self.current_behavior != 'constant'
+        flips = np.logical_and(is_linear, current_k * current_kp1 < 0)  # shape (current_batch, 1)
+        dt_1 = delta_t * np.where(flips, current_k / np.where(flips, current_k - current_kp1, 1.), 1.)
+        dt_2 = delta_t - dt_1  # shape (trans_batch, 1)
+        # Direction of the current in the first interval. It is that of the new current if ramping up from rest
+        direction = np.sign(np.where(np.logical_and(is_linear, current_k == 0), current_kp1, current_k))
+
         # Set Coulombic efficiency to 1. if discharging
-        coul_eff = np.atleast_2d(1) if current_k < 0 else asoh.ce  # shape (ce_batch, 1)
+        coul_eff = np.where(direction < 0, 1., asoh.ce)  # shape (trans_batch, 1)
+        coul_eff_2 = np.where(direction > 0, 1., asoh.ce)  # shape (trans_batch, 1)
 
         # Update SOC
         soc_k = transient_state.soc.copy()  # shape (soc_batch, 1)
         Qt = asoh.q_t.value  # shape (qt_batch, 1)
         charge_cycled = delta_t * (current_k + ((current_slope * delta_t) / 2))  # shape (trans_batch, 1)
         # NOTE: the below operation only works if batches are broadcastable!!!
-        soc_kp1 = soc_k + (coul_eff * (charge_cycled / Qt))  # shape (trans_batch, 1)
+        charge_2 = np.where(flips, dt_2 * current_kp1 / 2, 0.)  # shape (trans_batch, 1)
+        soc_kp1 = soc_k + (coul_eff * ((charge_cycled - charge_2) / Qt)) \
+            + (coul_eff_2 * (charge_2 / Qt))  # shape (trans_batch, 1)
 
         # Update q0
         q0_kp1 = None
@@ -96,48 +108,30 @@ class EquivalentCircuitModel(CellModel):
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-        hyst_kp1 = transient_state.hyst.copy()  # shape (hyst_batch, 1)
         # Needed parameters
         M = asoh.h0.get_value(soc=soc_k)  # shape (h0_batch, soc_batch, 1)
         # Recall that, if charging, than M has to be >0, but, if dischargin, it
-        # has to be <0. The easiest way to check for that is to multiply by the
-        # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
+        # has to be <0.
+        M = M * direction  # shape (h0_batch, trans_batch, 1)
 
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
-        kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-        # We need to figure out if the current changes sign during this process
-
-        if current_k * current_kp1 >= 0 or self.current_behavior == 'constant':
-            hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
-                                                    M=M,
-                                                    kappa=kappa,
-                                                    dt=delta_t,
-                                                    i0=current_k,
-                                                    alpha=current_slope)  # shape (h0_batch, trans_batch, 1)
-        # If the current flips sign, we need to deal with two intervals
-        else:
-            # solving for time until current == 0
-            phi = -current_k / current_slope
-            h_mid = hysteresis_solver_const_sign(h0=transient_state.hyst,
-                                                 M=M,
-                                                 kappa=kappa,
-                                                 dt=phi,
-                                                 i0=current_k,
-                                                 alpha=current_slope)
-            # Use this new value to update for the next interval. Remember to:
-            # 1. use the new hysteresis value
-            # 2. flip the sign of maximum hysteresis to follow current
-            # 3. use the remaining time interval of delta_t - phi
-            # 4. use the starting current of 0.0
-            hyst_kp1 = hysteresis_solver_const_sign(h0=h_mid,
-                                                    M=-M,
-                                                    kappa=kappa,
-                                                    dt=(delta_t - phi),
-                                                    i0=0.0,
-                                                    alpha=current_slope)
+        hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
+                                                M=M,
+                                                kappa=(coul_eff * gamma) / Qt,  # shape (asoh_batch, 1)
+                                                dt=dt_1,
+                                                i0=current_k,
+                                                alpha=current_slope)  # shape (h0_batch, trans_batch, 1)
+        # Use this new value to update for the next interval, if the current flips sign. Remember to:
+        # 1. use the new hysteresis value
+        # 2. flip the sign of maximum hysteresis to follow current
+        # 3. use the remaining time interval
+        # 4. use the starting current of 0.0
+        hyst_kp1 = hysteresis_solver_const_sign(h0=hyst_kp1,
+                                                M=-M,
+                                                kappa=(coul_eff_2 * gamma) / Qt,  # shape (asoh_batch, 1)
+                                                dt=dt_2,
+                                                i0=0.0,
+                                                alpha=current_slope)
         # Now, hyst_kp1 is a 3D array with shape shape (h0_batch, trans_batch, 1), we need to convert it to 2D
         assert len(hyst_kp1.shape) == 3, f'Hysteresis has shape {hyst_kp1.shape}, but we expected a 3D array!'
         if hyst_kp1.shape[0] == hyst_kp1.shape[1]:
-- 
2.43.0


From d3b019d503f86394ee9a97390e4b68bbc5aa12de Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 12/48] fix: allow RC elements with different batch sizes

---
 moirae/models/ecm/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 7505757..b5d6b8e 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -88,8 +88,9 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            tau = np.array(np.broadcast_arrays(
+                *[RC.time_constant(soc=soc_k, temp=temp_k) for RC in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -175,11 +176,11 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            rc_rs = np.array(np.broadcast_arrays(
+                *[rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From 988d2b81124c65d8e1f36f5288b161430088bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 13/48] fix: compute the nearest positive semi-definite matrix
 from the full singular value decomposition

---
 moirae/estimators/online/filters/kalman/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..da27993 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -35,10 +35,11 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     Args:
         Sig: matrix that should be positive semi-definite but isn't
     """
-    # Perform singular value decomposition
-    _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
-    return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
+    # Perform singular value decomposition of the symmetric part of the matrix
+    B_matrix = (Sig + Sig.T) / 2
+    _, S_diagonal, V_complex_conjugate = np.linalg.svd(B_matrix)
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
+    return (2 * B_matrix + H_matrix + H_matrix.T) / 4
 
 
 def calculate_gain_matrix(cov_xy: np.ndarray, cov_y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 56abdd839bb57a05ac8ad86f833cf7cf423b1ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 14/48] fix: build Sigma points from covariances which are only
 positive semi-definite

---
 moirae/estimators/online/filters/kalman/unscented.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 53df156..f16e5a0 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -206,7 +206,11 @@ class UnscentedKalmanFilter(BaseFilter):
 
         # Sigma points are the augmented "mean" + each individual row of the transpose of the Cholesky decomposition of
         # Cov_aug, with a weighing factor of plus and minus gamma_param
-        sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        try:
+            sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        except np.linalg.LinAlgError:  # Semi-definite covariances do not have a Cholesky decomposition
+            eig_vals, eig_vecs = np.linalg.eigh(cov_aug)
+            sqrt_cov_aug = np.sqrt(np.clip(eig_vals, 0., None))[:, None] * eig_vecs.T
         aux_sigma_pts = np.vstack((np.zeros((self._aug_len,)),
                                    self.gamma_param * sqrt_cov_aug,
                                    -self.gamma_param * sqrt_cov_aug))
-- 
2.43.0


From eaf23c2f371676e3f3167807a8d8356465c58aaf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 15/48] fix: pass keyword arguments of the UKF step only to the
 model

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index f16e5a0..1a1241c 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -181,7 +181,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1: perform estimation update
         x_k_minus, y_k, cov_xy = self.estimation_update(sigma_pts=sigma_pts, new_controls=new_controls, **kwargs)
         # Step 2: correction step, adjust hidden states based on new measurement
-        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements, **kwargs)
+        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements)
         # Don't forget to update the internal control!
         self.controls = new_controls.model_copy(deep=True)
         # Return
-- 
2.43.0


From 60c417965b38f3b3d0cb68ab5d905a530b2bc39b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 16/48] fix: report the state of the joint estimator in the
 coordinates of the model

---
 moirae/estimators/online/joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..cd028ff 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,10 +42,10 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
+        joint_state = self.filter.hidden
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
             hidden_states=np.atleast_2d(joint_state.get_mean()))
         return estimated_transient, estimated_asoh
-- 
2.43.0


From 4e18d84eff66a8d1a8111f5009d9fbb483cd7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 17/48] fix: combine both distributions in the state of the
 dual estimator

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From a4c3ab5c2b73d7ef76944b77a1724acb31c8837b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 18/48] fix: map dual estimates to the A-SOH parameters being
 estimated

---
 moirae/estimators/online/dual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..8ab75e7 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,8 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(),
+                                             names=self.asoh_wrapper.asoh_inputs)
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From 10fea55b8dbac3ed5ba5672f6f822a47d3fa88fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 19/48] fix: isolate model wrappers from later changes to the
 objects used to build them

---
 moirae/estimators/online/utils/model.py | 808 ++++++++++++------------
 1 file changed, 404 insertions(+), 404 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..a0ba6e4 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -1,404 +1,404 @@
-"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
-widely-used Python types, such as Numpy Arrays."""
-import numpy as np
-from typing import Tuple, Optional, Union
-
-from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
-from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
-from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
-from moirae.models.utils import NoDegradation
-
-
-def convert_vals_model_to_filter(
-        model_quantities: GeneralContainer,
-        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
-    """
-    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
-    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
-    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
-
-    Args:
-        model_quantities: model-related object to be converted into filter-related object
-        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
-
-    Returns:
-        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
-    """
-    if uncertainty_matrix is None:
-        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
-    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
-
-
-class BaseCellWrapper(ModelWrapper):
-    """
-    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
-    the filter implementations.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    cell_model: CellModel
-    """Cell model underpinning the update functions"""
-    asoh: HealthVariable
-    """ASOH values passed to each call of the cell model"""
-    transients: GeneralContainer
-    """Transient states used for the inputs of the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
-
-        # Give converters to parent class
-        super().__init__(**converters)
-
-        # Store the ASOH and transient state, making sure they are not batched
-        if asoh.batch_size > 1:
-            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
-        if transients.batch_size > 1:
-            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
-
-        self.transients = transients
-        self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
-
-        # Capture the shape of the outputs
-        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-                                                                                 transient_state=self.transients,
-                                                                                 asoh=self.asoh).to_numpy().shape[1]
-
-    @property
-    def num_output_dimensions(self) -> int:
-        return self._num_output_dimensions
-
-
-class CellModelWrapper(BaseCellWrapper):
-    """
-    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
-    """
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        self.num_transients = transients.to_numpy().shape[1]
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        # Update transients
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=transients,
-                                                                asoh=self.asoh)
-
-        # Convert back to filter language
-        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
-
-        return new_transients
-
-    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
-        from it
-        """
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Get output
-        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                                  transient_state=transients,
-                                                                  asoh=self.asoh)
-
-        # Convert back to filter lingo
-        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
-
-        return measurements
-
-
-class DegradationModelWrapper(BaseCellWrapper):
-    """
-    Link between A-SOH degradation models and the numpy-only interface of the
-    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
-    frameworks
-
-    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
-    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
-        self._previous_inputs = inputs.model_copy(deep=True)
-        # Store degradation model
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_asoh
-
-    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
-        """
-        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
-        """
-        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
-                                   names=self.asoh_inputs)
-        return asoh
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
-        previous and new controls. If the degradation model needs information for further in the past, it is responsible
-        for keeping track of that. The degration model will also be provided the current estimate of the transient
-        vector.
-        """
-        # Remember that, during this step, we should also store the previous controls so that the transient vector can
-        # be propagated through the hidden states in the predict measurement step
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        self._previous_inputs = previous_inputs
-
-        # Convert to A-SOH object
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-        # Convert new controls
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-        # Compute measurements
-        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
-                                                                      transient_state=self.transients,
-                                                                      asoh=asoh)
-        # Degrade A-SOH
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
-                                              new_inputs=new_inputs,
-                                              new_transients=self.transients,
-                                              new_measurements=new_measurements)
-
-        return self.hidden_conversion.inverse_transform_samples(
-            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
-        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
-        """
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Do the same for the A-SOH
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-
-        # Now, propagate the transients through the A-SOH
-        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
-                                                                       new_inputs=inputs,
-                                                                       transient_state=self.transients,
-                                                                       asoh=asoh)
-
-        # Finally, compute outputs
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=propagated_transients,
-                                                             asoh=asoh)
-
-        # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
-
-
-class JointCellModelWrapper(BaseCellWrapper):
-    """Interface used when the hidden state used by a filter includes the transient states.
-
-    Create the interface by defining
-        - Which portions of the ASOH are used as inputs to function
-        - Values for the ASOH parameters that remain fixed
-        - An example transient state and input to be passed to the function which will be used as a template
-
-    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients + self.num_asoh
-
-    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
-        """Transform the state of health and transients states (quantities used by CellModel)
-        into the "hidden state" vector used by the actual filter
-
-        Args:
-            asoh: Values of the ASOH parameter
-            transients: Values of the transient states
-        Returns:
-            A hidden state vector ready for use in a filter
-        """
-
-        # Get raw values
-        trans_raw = transients.to_numpy()
-        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
-
-        # Concatenate
-        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
-
-        # Convert to filter
-        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
-
-        return joint
-
-    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
-        """Convert the hidden states into the forms used by CellModel
-
-        Args:
-            hidden_states: Hidden states as used by the estimator
-        Returns:
-            - ASOH with values from the hidden states
-            - Transients state from the hidden states
-        """
-
-        # Get raw values
-        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
-
-        # Update any parameters for the transient state
-        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
-
-        # Update the ASOH accordingly
-        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
-
-        return my_asoh, my_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Transmute the controls and hidden state into the form required for the CellModel
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-
-        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
-        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=my_transients,
-                                                                asoh=my_asoh)
-
-        # Let's also degrade the A-SOH
-        # We need the measurement
-        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
-                                                                     transient_state=my_transients,
-                                                                     asoh=my_asoh)
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
-                                              new_inputs=previous_inputs,
-                                              new_transients=my_transients,
-                                              new_measurements=new_measurement)
-
-        # Convert this back to filter lingo
-        output[:, :self.num_transients] = new_transients.to_numpy()
-        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
-        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
-        return output
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Now, iterate through hidden states to compute terminal voltage
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=my_transients,
-                                                             asoh=my_asoh)
-        # Convert to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
+"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
+widely-used Python types, such as Numpy Arrays."""
+import numpy as np
+from typing import Tuple, Optional, Union
+
+from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
+from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
+from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
+from moirae.models.utils import NoDegradation
+
+
+def convert_vals_model_to_filter(
+        model_quantities: GeneralContainer,
+        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
+    """
+    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
+    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
+    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
+
+    Args:
+        model_quantities: model-related object to be converted into filter-related object
+        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
+
+    Returns:
+        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
+    """
+    if uncertainty_matrix is None:
+        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
+    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
+
+
+class BaseCellWrapper(ModelWrapper):
+    """
+    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
+    the filter implementations.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    cell_model: CellModel
+    """Cell model underpinning the update functions"""
+    asoh: HealthVariable
+    """ASOH values passed to each call of the cell model"""
+    transients: GeneralContainer
+    """Transient states used for the inputs of the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
+
+        # Give converters to parent class
+        super().__init__(**converters)
+
+        # Store the ASOH and transient state, making sure they are not batched
+        if asoh.batch_size > 1:
+            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
+        if transients.batch_size > 1:
+            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
+
+        self.transients = transients.model_copy(deep=True)
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
+
+        # Capture the shape of the outputs
+        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
+                                                                                 transient_state=self.transients,
+                                                                                 asoh=self.asoh).to_numpy().shape[1]
+
+    @property
+    def num_output_dimensions(self) -> int:
+        return self._num_output_dimensions
+
+
+class CellModelWrapper(BaseCellWrapper):
+    """
+    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
+    """
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        self.num_transients = transients.to_numpy().shape[1]
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        # Update transients
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=transients,
+                                                                asoh=self.asoh)
+
+        # Convert back to filter language
+        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
+
+        return new_transients
+
+    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
+        from it
+        """
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Get output
+        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                                  transient_state=transients,
+                                                                  asoh=self.asoh)
+
+        # Convert back to filter lingo
+        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
+
+        return measurements
+
+
+class DegradationModelWrapper(BaseCellWrapper):
+    """
+    Link between A-SOH degradation models and the numpy-only interface of the
+    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
+    frameworks
+
+    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
+    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
+        self._previous_inputs = inputs.model_copy(deep=True)
+        # Store degradation model
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_asoh
+
+    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
+        """
+        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
+        """
+        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
+                                   names=self.asoh_inputs)
+        return asoh
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
+        previous and new controls. If the degradation model needs information for further in the past, it is responsible
+        for keeping track of that. The degration model will also be provided the current estimate of the transient
+        vector.
+        """
+        # Remember that, during this step, we should also store the previous controls so that the transient vector can
+        # be propagated through the hidden states in the predict measurement step
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        self._previous_inputs = previous_inputs
+
+        # Convert to A-SOH object
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+        # Convert new controls
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+        # Compute measurements
+        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
+                                                                      transient_state=self.transients,
+                                                                      asoh=asoh)
+        # Degrade A-SOH
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
+                                              new_inputs=new_inputs,
+                                              new_transients=self.transients,
+                                              new_measurements=new_measurements)
+
+        return self.hidden_conversion.inverse_transform_samples(
+            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
+        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
+        """
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Do the same for the A-SOH
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+
+        # Now, propagate the transients through the A-SOH
+        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
+                                                                       new_inputs=inputs,
+                                                                       transient_state=self.transients,
+                                                                       asoh=asoh)
+
+        # Finally, compute outputs
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=propagated_transients,
+                                                             asoh=asoh)
+
+        # Convert outpus to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
+
+
+class JointCellModelWrapper(BaseCellWrapper):
+    """Interface used when the hidden state used by a filter includes the transient states.
+
+    Create the interface by defining
+        - Which portions of the ASOH are used as inputs to function
+        - Values for the ASOH parameters that remain fixed
+        - An example transient state and input to be passed to the function which will be used as a template
+
+    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients + self.num_asoh
+
+    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
+        """Transform the state of health and transients states (quantities used by CellModel)
+        into the "hidden state" vector used by the actual filter
+
+        Args:
+            asoh: Values of the ASOH parameter
+            transients: Values of the transient states
+        Returns:
+            A hidden state vector ready for use in a filter
+        """
+
+        # Get raw values
+        trans_raw = transients.to_numpy()
+        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
+
+        # Concatenate
+        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
+
+        # Convert to filter
+        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
+
+        return joint
+
+    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
+        """Convert the hidden states into the forms used by CellModel
+
+        Args:
+            hidden_states: Hidden states as used by the estimator
+        Returns:
+            - ASOH with values from the hidden states
+            - Transients state from the hidden states
+        """
+
+        # Get raw values
+        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
+
+        # Update any parameters for the transient state
+        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
+
+        # Update the ASOH accordingly
+        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
+
+        return my_asoh, my_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Transmute the controls and hidden state into the form required for the CellModel
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+
+        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
+        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=my_transients,
+                                                                asoh=my_asoh)
+
+        # Let's also degrade the A-SOH
+        # We need the measurement
+        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
+                                                                     transient_state=my_transients,
+                                                                     asoh=my_asoh)
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
+                                              new_inputs=previous_inputs,
+                                              new_transients=my_transients,
+                                              new_measurements=new_measurement)
+
+        # Convert this back to filter lingo
+        output[:, :self.num_transients] = new_transients.to_numpy()
+        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
+        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
+        return output
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Now, iterate through hidden states to compute terminal voltage
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=my_transients,
+                                                             asoh=my_asoh)
+        # Convert to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
-- 
2.43.0


From b71022cdb433fc1f9ae7a3412d36d52910e6b63d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 20/48] fix: label rows of the simulation history with the
 right member of the batch

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..6e2f1a9 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From 05c471331b32c090bfab0d39d675baded0c378f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 21/48] fix: do not share memory between containers and the
 arrays used to fill them

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 7ca46ec..3414de3 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -532,7 +532,7 @@ class GeneralContainer(BaseModel,
             field_len = current_field.shape[-1]
 
             end_index = begin_index + field_len
-            new_field_values = values[:, begin_index:end_index]
+            new_field_values = values[:, begin_index:end_index].copy()
             setattr(self, field_name, new_field_values)
             begin_index = end_index
 
-- 
2.43.0


From 92eedc60b9834b064e5595481c5e4c65e46244b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 22/48] fix: evaluate the mean squared loss for a batch of
 parameters

---
 moirae/estimators/offline/loss.py | 214 +++++++++++++++---------------
 1 file changed, 107 insertions(+), 107 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..c39d9c8 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
-- 
2.43.0


From 3237cf59b4ac386926ee2adc95c9e216d7035cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 23/48] fix: estimate the state for every row of the dataset,
 including the first

---
 moirae/interface/__init__.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..a68007d 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -97,10 +97,6 @@ def run_online_estimate(
     else:
         raise ValueError(f'Unrecognized data type: {type(dataset)}')
 
-    # Update the initial inputs for the
-    initial_input, _ = row_to_inputs(next(row_iter))
-    estimator._u = initial_input
-
     # Initialize the output arrays
     if output_states:
         state_mean = np.zeros((num_rows, estimator.num_state_dimensions))
-- 
2.43.0


From cbdf2eba9df9dafa1cee2128d8a135a62998e20d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 24/48] fix: report standard deviations rather than variances
 of the online estimates

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index a68007d..ee1db06 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -126,9 +126,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From b6386325556743e70fd256a652759012d6bbbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 25/48] fix: write estimates from datasets without cycle
 numbers to HDF5

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index ee1db06..a2cfaf7 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -82,7 +82,7 @@ def run_online_estimate(
             raise ValueError('No time series data in the provided dataset')
 
         num_rows = dataset.raw_data.shape[0]
-        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 0
+        num_cycles = int(dataset.raw_data['cycle_number'].max()) + 1 if 'cycle_number' in dataset.raw_data else 1
 
         def _row_iter(d):
             for _, r in d.iterrows():
@@ -132,7 +132,7 @@ def run_online_estimate(
 
             # Store estimates
             if hdf5_output is not None:
-                h5_writer.append_step(row['test_time'], row['cycle_number'], new_state, new_outputs)
+                h5_writer.append_step(row['test_time'], row.get('cycle_number', 0), new_state, new_outputs)
 
     # Compile the outputs into a dataframe
     output = None
-- 
2.43.0


From 950db9137e49e65e8b62c9af9f9ab0f050326739 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 26/48] fix: read estimates for cycles which are preceded by
 ones without data

---
 moirae/interface/hdf5.py | 588 +++++++++++++++++++--------------------
 1 file changed, 294 insertions(+), 294 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..1a1e9d8 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,294 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks steps or cycles without data
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From 9be4347655309d1d1905084cbdae214aae9cc9eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 27/48] fix: let resizable HDF5 outputs grow to any step or
 cycle

---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1a1e9d8..7f06f60 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -162,7 +162,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 if self.resizable:
                     starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
                 else:
                     my_kwargs = {'shape': (expected, *value.shape)}
 
@@ -208,7 +208,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
 
                 # Expand by one chunk size if necessary
                 if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
+                    my_dataset.resize(max(ind + 1, my_dataset.shape[0] + my_dataset.chunks[0]), axis=0)
 
                 my_ind = (ind,) + (slice(None),) * value.ndim
                 my_dataset[my_ind] = value
-- 
2.43.0


From b386dcb69fd41df63b08bd7463bb020b88b12729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 28/48] fix: export simulations where only earlier or other
 quantities are batched

---
 moirae/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index 6e2f1a9..e8219fd 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -151,7 +151,9 @@ class Simulator:
         if not self.keep_history:
             raise ValueError('History was not stored. Set keep_history=True')
 
-        batch_size = self.measurement.batch_size
+        # Any of the quantities at any of the steps may be the one which is batched
+        histories = (self.input_history, self.transient_history, self.measurement_history)
+        batch_size = max(x.batch_size for history in histories for x in history)
 
         def _squish(params: List[GeneralContainer]) -> pd.DataFrame:
             values = np.concatenate([
-- 
2.43.0


From 7e0df2ad06a3bc02ae2a3fd0c4048574efbb37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 29/48] fix: keep the coefficients of Thevenin parameters in
 JSON

---
 moirae/models/thevenin/state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/moirae/models/thevenin/state.py b/moirae/models/thevenin/state.py
index e09f9e5..516753e 100644
--- a/moirae/models/thevenin/state.py
+++ b/moirae/models/thevenin/state.py
@@ -1,6 +1,6 @@
 """Representations for the parameters of a Thenevin model"""
 import numpy as np
-from typing import Tuple
+from typing import Tuple, Union
 
 from pydantic import Field, model_validator
 
@@ -27,13 +27,15 @@ class TheveninASOH(HealthVariable):
     """Convective coefficient (W/m^2/K)"""
     a_therm: ScalarParameter = 1
     """Heat loss area (m^2)"""
-    ocv: SOCDependentVariable = Field(default_factory=lambda: SOCPolynomialVariable(coeffs=3.5))
+    ocv: Union[SOCPolynomialVariable, SOCDependentVariable] = Field(
+        default_factory=lambda: SOCPolynomialVariable(coeffs=3.5)
+    )
     """Open circuit voltage (V)"""
-    r: Tuple[SOCTempDependentVariable, ...] = Field(
+    r: Tuple[Union[SOCTempPolynomialVariable, SOCTempDependentVariable], ...] = Field(
         default_factory=lambda: (SOCTempPolynomialVariable(soc_coeffs=0.1),), min_length=1
     )
     """Resistance all resistors, including both the series resistor and those in RC elements (Ohm)"""
-    c: Tuple[SOCTempDependentVariable, ...] = Field(default_factory=tuple)
+    c: Tuple[Union[SOCTempPolynomialVariable, SOCTempDependentVariable], ...] = Field(default_factory=tuple)
     """Capacitance in all RC elements (C)"""
 
     @property
-- 
2.43.0


From 54c466bfbc6c046ef795e4032c5275d2bd658952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 30/48] fix: combine Gaussians given by any iterable

---
 moirae/estimators/online/filters/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 9238b00..ec844e3 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -164,6 +164,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
         return self.covariance.copy()
 
     def combine_with(self, random_dists: Iterable[Self]) -> Self:
+        random_dists = list(random_dists)  # Iterated over more than once
         combined_mean = [self.get_mean(),]
         combined_mean += [gaussian.get_mean() for gaussian in random_dists]
         combined_cov = [self.get_covariance(),]
-- 
2.43.0


From 5125aa8a0ddedfd7592981905ee38784bba319de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 31/48] fix: symmetrise covariances however small they are

---
 moirae/estimators/online/filters/kalman/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index da27993..afe6820 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -13,7 +13,8 @@ def ensure_positive_semi_definite(Sig: np.ndarray) -> np.ndarray:
     Returns:
         "Closest" (most similar) positive semi-definite matrix
     """
-    if np.allclose(Sig, Sig.T):  # checking if it is symmetric
+    tol = 1e-8 * min(1., np.max(np.abs(Sig)))  # covariances can be much smaller than 1
+    if np.allclose(Sig, Sig.T, atol=tol):  # checking if it is symmetric
         try:
             # checking for positive semi-definiteness
             np.linalg.cholesky(Sig)  # throws LinAlgError if not
-- 
2.43.0


From 4997b33728d3f4115a43044d5ce8e583965902a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 32/48] fix: one prediction per estimate of parameters which
 the outputs do not depend on

---
 moirae/estimators/online/utils/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index a0ba6e4..93f4066 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -256,10 +256,14 @@ class DegradationModelWrapper(BaseCellWrapper):
         # Finally, compute outputs
         outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
                                                              transient_state=propagated_transients,
-                                                             asoh=asoh)
+                                                             asoh=asoh).to_numpy()
+
+        # The outputs are not batched if they depend on none of the A-SOH parameters in the hidden state
+        if outputs.shape[0] == 1:
+            outputs = np.repeat(outputs, np.atleast_2d(hidden_states).shape[0], axis=0)
 
         # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
         return outputs
 
 
-- 
2.43.0


From 2fa181f8aeadf9e580019c893bfd451b51484660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 33/48] fix: restore the line endings of files touched by
 earlier fixes

---
 moirae/estimators/offline/loss.py       | 214 +++----
 moirae/estimators/online/utils/model.py | 816 ++++++++++++------------
 moirae/interface/hdf5.py                | 588 ++++++++---------
 3 files changed, 809 insertions(+), 809 deletions(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index c39d9c8..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -1,107 +1,107 @@
-"""Interfaces that evaluate the fitness of a set of battery state parameters
-provided as a NumPy array."""
-import numpy as np
-from battdat.data import BatteryDataset
-
-from moirae.interface import row_to_inputs
-from moirae.models.base import CellModel, HealthVariable, GeneralContainer
-from moirae.simulator import Simulator
-
-
-# TODO (wardlt): Add degradation model after we decide how to handle its parameters
-class BaseLoss:
-    """
-    Base class for objective functions which evaluate the ability of a set
-    of battery health parameters to explain the observed performance data.
-
-    All Loss classes should follow the convention that better sets of
-    parameters yield values which are less than worse parameters.
-    There are no constraints on whether the values need to be positive or negative.
-    """
-
-    cell_model: CellModel
-    """Cell model used to compute """
-    asoh: HealthVariable
-    """Initial guess for battery health"""
-    state: GeneralContainer
-    """Initial guess for battery transient state"""
-    observations: BatteryDataset
-    """Observed data for the battery performance"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transient_state: GeneralContainer,
-                 observations: BatteryDataset):
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.state = transient_state.model_copy(deep=True)
-        self.observations = observations
-
-    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
-    def get_x0(self) -> np.ndarray:
-        """Generate an initial guess
-
-        Returns:
-            A 1D vector used as a starting point for class to this class
-        """
-        if self.asoh.num_updatable == 0:
-            return self.state.to_numpy()[0, :]
-        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        """
-        Compute the fitness of a set of parameters to the observed data.
-
-        Args:
-            x: Batch of parameters to be evaluated (2D array)
-
-        Returns:
-            A single measure of parameter fitness for each member of batch (1D array)
-        """
-        raise NotImplementedError()
-
-
-# TODO (wardlt): Generalize to other outputs when we have them
-class MeanSquaredLoss(BaseLoss):
-    """
-    Score the fitness of a set of health parameters by the mean squared error
-    between observed and predicted terminal voltage.
-    """
-
-    def __call__(self, x: np.ndarray) -> np.ndarray:
-        # Translate input parameters to state and ASOH parameters
-        n_states = len(self.state)
-        state_x = self.state.make_copy(x[:, :n_states])
-        asoh_x = self.asoh.make_copy(x[:, n_states:])
-
-        # Build a simulator
-        raw_data = self.observations.tables['raw_data']
-        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
-        sim = Simulator(
-            cell_model=self.cell_model,
-            asoh=asoh_x,
-            transient_state=state_x,
-            initial_input=initial_input,
-        )
-
-        # Prepare the output arrays
-        num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
-
-        true_y[0, :] = initial_output.to_numpy()
-        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
-        pred_y[0, :] = y.to_numpy()
-
-        # Run the forward model
-        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
-            new_in, new_out = row_to_inputs(row)
-            _, pred_out = sim.step(new_in)
-
-            true_y[i + 1, :] = new_out.to_numpy()
-            pred_y[i + 1, :] = pred_out.to_numpy()
-
-        # Compute the mean-squared-error for each member of the batch
-        squared_error = np.power(pred_y - true_y, 2)
-        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
+"""Interfaces that evaluate the fitness of a set of battery state parameters
+provided as a NumPy array."""
+import numpy as np
+from battdat.data import BatteryDataset
+
+from moirae.interface import row_to_inputs
+from moirae.models.base import CellModel, HealthVariable, GeneralContainer
+from moirae.simulator import Simulator
+
+
+# TODO (wardlt): Add degradation model after we decide how to handle its parameters
+class BaseLoss:
+    """
+    Base class for objective functions which evaluate the ability of a set
+    of battery health parameters to explain the observed performance data.
+
+    All Loss classes should follow the convention that better sets of
+    parameters yield values which are less than worse parameters.
+    There are no constraints on whether the values need to be positive or negative.
+    """
+
+    cell_model: CellModel
+    """Cell model used to compute """
+    asoh: HealthVariable
+    """Initial guess for battery health"""
+    state: GeneralContainer
+    """Initial guess for battery transient state"""
+    observations: BatteryDataset
+    """Observed data for the battery performance"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transient_state: GeneralContainer,
+                 observations: BatteryDataset):
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.state = transient_state.model_copy(deep=True)
+        self.observations = observations
+
+    # TODO (wardlt): Consider passing the ASOH parameters through somewhere else
+    def get_x0(self) -> np.ndarray:
+        """Generate an initial guess
+
+        Returns:
+            A 1D vector used as a starting point for class to this class
+        """
+        if self.asoh.num_updatable == 0:
+            return self.state.to_numpy()[0, :]
+        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        """
+        Compute the fitness of a set of parameters to the observed data.
+
+        Args:
+            x: Batch of parameters to be evaluated (2D array)
+
+        Returns:
+            A single measure of parameter fitness for each member of batch (1D array)
+        """
+        raise NotImplementedError()
+
+
+# TODO (wardlt): Generalize to other outputs when we have them
+class MeanSquaredLoss(BaseLoss):
+    """
+    Score the fitness of a set of health parameters by the mean squared error
+    between observed and predicted terminal voltage.
+    """
+
+    def __call__(self, x: np.ndarray) -> np.ndarray:
+        # Translate input parameters to state and ASOH parameters
+        n_states = len(self.state)
+        state_x = self.state.make_copy(x[:, :n_states])
+        asoh_x = self.asoh.make_copy(x[:, n_states:])
+
+        # Build a simulator
+        raw_data = self.observations.tables['raw_data']
+        initial_input, initial_output = row_to_inputs(raw_data.iloc[0])
+        sim = Simulator(
+            cell_model=self.cell_model,
+            asoh=asoh_x,
+            transient_state=state_x,
+            initial_input=initial_input,
+        )
+
+        # Prepare the output arrays
+        num_outs = len(initial_output)
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
+
+        true_y[0, :] = initial_output.to_numpy()
+        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
+        pred_y[0, :] = y.to_numpy()
+
+        # Run the forward model
+        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
+            new_in, new_out = row_to_inputs(row)
+            _, pred_out = sim.step(new_in)
+
+            true_y[i + 1, :] = new_out.to_numpy()
+            pred_y[i + 1, :] = pred_out.to_numpy()
+
+        # Compute the mean-squared-error for each member of the batch
+        squared_error = np.power(pred_y - true_y, 2)
+        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 93f4066..5c39c3b 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -1,408 +1,408 @@
-"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
-widely-used Python types, such as Numpy Arrays."""
-import numpy as np
-from typing import Tuple, Optional, Union
-
-from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
-from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
-from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
-from moirae.models.utils import NoDegradation
-
-
-def convert_vals_model_to_filter(
-        model_quantities: GeneralContainer,
-        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
-    """
-    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
-    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
-    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
-
-    Args:
-        model_quantities: model-related object to be converted into filter-related object
-        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
-
-    Returns:
-        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
-    """
-    if uncertainty_matrix is None:
-        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
-    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
-
-
-class BaseCellWrapper(ModelWrapper):
-    """
-    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
-    the filter implementations.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    cell_model: CellModel
-    """Cell model underpinning the update functions"""
-    asoh: HealthVariable
-    """ASOH values passed to each call of the cell model"""
-    transients: GeneralContainer
-    """Transient states used for the inputs of the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
-
-        # Give converters to parent class
-        super().__init__(**converters)
-
-        # Store the ASOH and transient state, making sure they are not batched
-        if asoh.batch_size > 1:
-            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
-        if transients.batch_size > 1:
-            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
-
-        self.transients = transients.model_copy(deep=True)
-        self.cell_model = cell_model
-        self.asoh = asoh.model_copy(deep=True)
-        self.inputs = inputs.model_copy(deep=True)
-
-        # Capture the shape of the outputs
-        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-                                                                                 transient_state=self.transients,
-                                                                                 asoh=self.asoh).to_numpy().shape[1]
-
-    @property
-    def num_output_dimensions(self) -> int:
-        return self._num_output_dimensions
-
-
-class CellModelWrapper(BaseCellWrapper):
-    """
-    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
-    """
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        self.num_transients = transients.to_numpy().shape[1]
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        # Update transients
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=transients,
-                                                                asoh=self.asoh)
-
-        # Convert back to filter language
-        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
-
-        return new_transients
-
-    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
-        from it
-        """
-        # Convert objects
-        transients = self.transients.make_copy(
-            values=self.hidden_conversion.transform_samples(samples=hidden_states))
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Get output
-        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                                  transient_state=transients,
-                                                                  asoh=self.asoh)
-
-        # Convert back to filter lingo
-        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
-
-        return measurements
-
-
-class DegradationModelWrapper(BaseCellWrapper):
-    """
-    Link between A-SOH degradation models and the numpy-only interface of the
-    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
-    frameworks
-
-    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
-    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
-        self._previous_inputs = inputs.model_copy(deep=True)
-        # Store degradation model
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_asoh
-
-    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
-        """
-        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
-        """
-        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
-                                   names=self.asoh_inputs)
-        return asoh
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
-        previous and new controls. If the degradation model needs information for further in the past, it is responsible
-        for keeping track of that. The degration model will also be provided the current estimate of the transient
-        vector.
-        """
-        # Remember that, during this step, we should also store the previous controls so that the transient vector can
-        # be propagated through the hidden states in the predict measurement step
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        self._previous_inputs = previous_inputs
-
-        # Convert to A-SOH object
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-        # Convert new controls
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-        # Compute measurements
-        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
-                                                                      transient_state=self.transients,
-                                                                      asoh=asoh)
-        # Degrade A-SOH
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
-                                              new_inputs=new_inputs,
-                                              new_transients=self.transients,
-                                              new_measurements=new_measurements)
-
-        return self.hidden_conversion.inverse_transform_samples(
-            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        """
-        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
-        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
-        """
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Do the same for the A-SOH
-        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
-
-        # Now, propagate the transients through the A-SOH
-        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
-                                                                       new_inputs=inputs,
-                                                                       transient_state=self.transients,
-                                                                       asoh=asoh)
-
-        # Finally, compute outputs
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=propagated_transients,
-                                                             asoh=asoh).to_numpy()
-
-        # The outputs are not batched if they depend on none of the A-SOH parameters in the hidden state
-        if outputs.shape[0] == 1:
-            outputs = np.repeat(outputs, np.atleast_2d(hidden_states).shape[0], axis=0)
-
-        # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
-        return outputs
-
-
-class JointCellModelWrapper(BaseCellWrapper):
-    """Interface used when the hidden state used by a filter includes the transient states.
-
-    Create the interface by defining
-        - Which portions of the ASOH are used as inputs to function
-        - Values for the ASOH parameters that remain fixed
-        - An example transient state and input to be passed to the function which will be used as a template
-
-    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
-
-    Args:
-        cell_model: Model which defines the physics of the system being modeled
-        asoh: Values for all state of health parameters of the model
-        transients: Current values of the transient state of the system
-        inputs: Example input values for the model
-        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
-        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
-        converters: set of converters to be used to translate between filter-coordinate system and model
-            coordinate-system
-    """
-
-    asoh_inputs: Tuple[str]
-    """Names of the parameters from the ASOH which are used as inputs to the model"""
-
-    def __init__(self,
-                 cell_model: CellModel,
-                 asoh: HealthVariable,
-                 transients: GeneralContainer,
-                 inputs: InputQuantities,
-                 asoh_inputs: Optional[Tuple[str]] = None,
-                 degradation_model: DegradationModel = NoDegradation(),
-                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
-        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
-
-        # Store the information about the identity of variables in the transient state
-        if asoh_inputs is None:
-            asoh_inputs = asoh.updatable_names
-        self.asoh_inputs = asoh_inputs
-        self.num_transients = transients.to_numpy().shape[1]
-        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
-        self.deg_model = degradation_model
-
-    @property
-    def num_hidden_dimensions(self) -> int:
-        return self.num_transients + self.num_asoh
-
-    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
-        """Transform the state of health and transients states (quantities used by CellModel)
-        into the "hidden state" vector used by the actual filter
-
-        Args:
-            asoh: Values of the ASOH parameter
-            transients: Values of the transient states
-        Returns:
-            A hidden state vector ready for use in a filter
-        """
-
-        # Get raw values
-        trans_raw = transients.to_numpy()
-        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
-
-        # Concatenate
-        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
-
-        # Convert to filter
-        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
-
-        return joint
-
-    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
-        """Convert the hidden states into the forms used by CellModel
-
-        Args:
-            hidden_states: Hidden states as used by the estimator
-        Returns:
-            - ASOH with values from the hidden states
-            - Transients state from the hidden states
-        """
-
-        # Get raw values
-        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
-
-        # Update any parameters for the transient state
-        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
-
-        # Update the ASOH accordingly
-        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
-
-        return my_asoh, my_transients
-
-    def update_hidden_states(self,
-                             hidden_states: np.ndarray,
-                             previous_controls: np.ndarray,
-                             new_controls: np.ndarray) -> np.ndarray:
-        # Transmute the controls and hidden state into the form required for the CellModel
-        previous_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=previous_controls))
-        new_inputs = self.inputs.make_copy(
-            values=self.control_conversion.transform_samples(samples=new_controls))
-
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-
-        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
-        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
-        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
-                                                                new_inputs=new_inputs,
-                                                                transient_state=my_transients,
-                                                                asoh=my_asoh)
-
-        # Let's also degrade the A-SOH
-        # We need the measurement
-        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
-                                                                     transient_state=my_transients,
-                                                                     asoh=my_asoh)
-        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
-                                              new_inputs=previous_inputs,
-                                              new_transients=my_transients,
-                                              new_measurements=new_measurement)
-
-        # Convert this back to filter lingo
-        output[:, :self.num_transients] = new_transients.to_numpy()
-        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
-        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
-        return output
-
-    def predict_measurement(self,
-                            hidden_states: np.ndarray,
-                            controls: np.ndarray) -> np.ndarray:
-        # First, transform the controls into ECM inputs
-        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
-
-        # Now, iterate through hidden states to compute terminal voltage
-        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
-        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
-                                                             transient_state=my_transients,
-                                                             asoh=my_asoh)
-        # Convert to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
-        return outputs
+"""Tools to reduce operations on :class:`~moirae.models.base.CellModel` to functions which act only on
+widely-used Python types, such as Numpy Arrays."""
+import numpy as np
+from typing import Tuple, Optional, Union
+
+from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
+from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
+from moirae.models.base import InputQuantities, GeneralContainer, HealthVariable, CellModel, DegradationModel
+from moirae.models.utils import NoDegradation
+
+
+def convert_vals_model_to_filter(
+        model_quantities: GeneralContainer,
+        uncertainty_matrix: Optional[np.ndarray] = None) -> Union[DeltaDistribution, MultivariateGaussian]:
+    """
+    Function that converts :class:`~moirae.model.base.GeneralContainer` object to filter-related quantities.
+    If uncertainty is provided, assumes a :class:`~moirae.estimators.online.filters.distributions.MultivariateGaussian`.
+    Otherwise, assumes :class:`~moirae.estimators.online.filters.distributions.DeltaDistribution`.
+
+    Args:
+        model_quantities: model-related object to be converted into filter-related object
+        uncertainty_matrix: 2D array to be used as covariance matrix; if not provided, returns DeltaDistribution
+
+    Returns:
+        a corresponding MultivariateRandomDistribution (either Gaussian or Delta)
+    """
+    if uncertainty_matrix is None:
+        return DeltaDistribution(mean=model_quantities.to_numpy().flatten())
+    return MultivariateGaussian(mean=model_quantities.to_numpy().flatten(), covariance=uncertainty_matrix)
+
+
+class BaseCellWrapper(ModelWrapper):
+    """
+    Base link between the :class:`~moirae.model.base.CellModel` and the numpy-only interface of
+    the filter implementations.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    cell_model: CellModel
+    """Cell model underpinning the update functions"""
+    asoh: HealthVariable
+    """ASOH values passed to each call of the cell model"""
+    transients: GeneralContainer
+    """Transient states used for the inputs of the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()):
+
+        # Give converters to parent class
+        super().__init__(**converters)
+
+        # Store the ASOH and transient state, making sure they are not batched
+        if asoh.batch_size > 1:
+            raise ValueError(f'The batch size of the ASOH must be 1. Found: {asoh.batch_size}')
+        if transients.batch_size > 1:
+            raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
+
+        self.transients = transients.model_copy(deep=True)
+        self.cell_model = cell_model
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
+
+        # Capture the shape of the outputs
+        self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
+                                                                                 transient_state=self.transients,
+                                                                                 asoh=self.asoh).to_numpy().shape[1]
+
+    @property
+    def num_output_dimensions(self) -> int:
+        return self._num_output_dimensions
+
+
+class CellModelWrapper(BaseCellWrapper):
+    """
+    This particular wrapper does not touch the A-SOH, but only uses it for predictions.
+    """
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        self.num_transients = transients.to_numpy().shape[1]
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        # Update transients
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=transients,
+                                                                asoh=self.asoh)
+
+        # Convert back to filter language
+        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
+
+        return new_transients
+
+    def predict_measurement(self, hidden_states: np.ndarray, controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the transient state and of the controls, and predicts measurements
+        from it
+        """
+        # Convert objects
+        transients = self.transients.make_copy(
+            values=self.hidden_conversion.transform_samples(samples=hidden_states))
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Get output
+        measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                                  transient_state=transients,
+                                                                  asoh=self.asoh)
+
+        # Convert back to filter lingo
+        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
+
+        return measurements
+
+
+class DegradationModelWrapper(BaseCellWrapper):
+    """
+    Link between A-SOH degradation models and the numpy-only interface of the
+    :class:`~moirae.estimators.online.filters.base.BaseFilter`. It provides the model wrapper need for dual estimation
+    frameworks
+
+    It takes an additional argument compared to the :class:`moirae.estimators.online.utils.model.BaseCellWrapper`, as it
+    needs to know the degrataion model being used. If none is passed, defaults to dummy degradation.
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        # Storing "previous inputs" just in case a call to `predict_measurement` is made prematurely
+        self._previous_inputs = inputs.model_copy(deep=True)
+        # Store degradation model
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_asoh
+
+    def _convert_hidden_to_asoh(self, hidden_states: np.ndarray) -> HealthVariable:
+        """
+        Helper function to take hidden states and convert them to A-SOH object to be given to degradation model
+        """
+        asoh = self.asoh.make_copy(values=self.hidden_conversion.transform_samples(samples=hidden_states),
+                                   names=self.asoh_inputs)
+        return asoh
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes a numpy representation of the A-SOH and degrades it using the degradation model and the
+        previous and new controls. If the degradation model needs information for further in the past, it is responsible
+        for keeping track of that. The degration model will also be provided the current estimate of the transient
+        vector.
+        """
+        # Remember that, during this step, we should also store the previous controls so that the transient vector can
+        # be propagated through the hidden states in the predict measurement step
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        self._previous_inputs = previous_inputs
+
+        # Convert to A-SOH object
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+        # Convert new controls
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+        # Compute measurements
+        new_measurements = self.cell_model.calculate_terminal_voltage(new_inputs=new_inputs,
+                                                                      transient_state=self.transients,
+                                                                      asoh=asoh)
+        # Degrade A-SOH
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=asoh,
+                                              new_inputs=new_inputs,
+                                              new_transients=self.transients,
+                                              new_measurements=new_measurements)
+
+        return self.hidden_conversion.inverse_transform_samples(
+            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        """
+        Function that takes the numpy-representation of the estimated of A-SOH and computes predictions of the
+        measurement. Recall that, for that, we first need to propagate the transients through the A-SOH estimates
+        """
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Do the same for the A-SOH
+        asoh = self._convert_hidden_to_asoh(hidden_states=hidden_states)
+
+        # Now, propagate the transients through the A-SOH
+        propagated_transients = self.cell_model.update_transient_state(previous_inputs=self._previous_inputs,
+                                                                       new_inputs=inputs,
+                                                                       transient_state=self.transients,
+                                                                       asoh=asoh)
+
+        # Finally, compute outputs
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=propagated_transients,
+                                                             asoh=asoh).to_numpy()
+
+        # The outputs are not batched if they depend on none of the A-SOH parameters in the hidden state
+        if outputs.shape[0] == 1:
+            outputs = np.repeat(outputs, np.atleast_2d(hidden_states).shape[0], axis=0)
+
+        # Convert outpus to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
+        return outputs
+
+
+class JointCellModelWrapper(BaseCellWrapper):
+    """Interface used when the hidden state used by a filter includes the transient states.
+
+    Create the interface by defining
+        - Which portions of the ASOH are used as inputs to function
+        - Values for the ASOH parameters that remain fixed
+        - An example transient state and input to be passed to the function which will be used as a template
+
+    The resultant function will take numpy arrays as inputs and produce numpy arrays as outputs
+
+    Args:
+        cell_model: Model which defines the physics of the system being modeled
+        asoh: Values for all state of health parameters of the model
+        transients: Current values of the transient state of the system
+        inputs: Example input values for the model
+        asoh_inputs: Names of the ASOH parameters to include as part of the hidden state
+        degradation_model: degradation model to be used; if not passed, degradation will be fully derived from data
+        converters: set of converters to be used to translate between filter-coordinate system and model
+            coordinate-system
+    """
+
+    asoh_inputs: Tuple[str]
+    """Names of the parameters from the ASOH which are used as inputs to the model"""
+
+    def __init__(self,
+                 cell_model: CellModel,
+                 asoh: HealthVariable,
+                 transients: GeneralContainer,
+                 inputs: InputQuantities,
+                 asoh_inputs: Optional[Tuple[str]] = None,
+                 degradation_model: DegradationModel = NoDegradation(),
+                 converters: ModelWrapperConverters = ModelWrapperConverters.defaults()) -> None:
+        super().__init__(cell_model=cell_model, asoh=asoh, transients=transients, inputs=inputs, converters=converters)
+
+        # Store the information about the identity of variables in the transient state
+        if asoh_inputs is None:
+            asoh_inputs = asoh.updatable_names
+        self.asoh_inputs = asoh_inputs
+        self.num_transients = transients.to_numpy().shape[1]
+        self.num_asoh = asoh.get_parameters(self.asoh_inputs).shape[1]
+        self.deg_model = degradation_model
+
+    @property
+    def num_hidden_dimensions(self) -> int:
+        return self.num_transients + self.num_asoh
+
+    def create_hidden_state(self, asoh: HealthVariable, transients: GeneralContainer) -> np.ndarray:
+        """Transform the state of health and transients states (quantities used by CellModel)
+        into the "hidden state" vector used by the actual filter
+
+        Args:
+            asoh: Values of the ASOH parameter
+            transients: Values of the transient states
+        Returns:
+            A hidden state vector ready for use in a filter
+        """
+
+        # Get raw values
+        trans_raw = transients.to_numpy()
+        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)
+
+        # Concatenate
+        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
+
+        # Convert to filter
+        joint = self.hidden_conversion.inverse_transform_samples(transformed_samples=joint_raw)
+
+        return joint
+
+    def create_cell_model_inputs(self, hidden_states: np.ndarray) -> Tuple[HealthVariable, GeneralContainer]:
+        """Convert the hidden states into the forms used by CellModel
+
+        Args:
+            hidden_states: Hidden states as used by the estimator
+        Returns:
+            - ASOH with values from the hidden states
+            - Transients state from the hidden states
+        """
+
+        # Get raw values
+        joint_raw = self.hidden_conversion.transform_samples(samples=hidden_states)
+
+        # Update any parameters for the transient state
+        my_transients = self.transients.make_copy(values=joint_raw[:, :self.num_transients])
+
+        # Update the ASOH accordingly
+        my_asoh = self.asoh.make_copy(values=joint_raw[:, self.num_transients:], names=self.asoh_inputs)
+
+        return my_asoh, my_transients
+
+    def update_hidden_states(self,
+                             hidden_states: np.ndarray,
+                             previous_controls: np.ndarray,
+                             new_controls: np.ndarray) -> np.ndarray:
+        # Transmute the controls and hidden state into the form required for the CellModel
+        previous_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=previous_controls))
+        new_inputs = self.inputs.make_copy(
+            values=self.control_conversion.transform_samples(samples=new_controls))
+
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+
+        # Produce an updated estimate for the transient states, hold the ASOH parameters constant
+        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
+        new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
+                                                                new_inputs=new_inputs,
+                                                                transient_state=my_transients,
+                                                                asoh=my_asoh)
+
+        # Let's also degrade the A-SOH
+        # We need the measurement
+        new_measurement = self.cell_model.calculate_terminal_voltage(new_inputs=previous_inputs,
+                                                                     transient_state=my_transients,
+                                                                     asoh=my_asoh)
+        deg_asoh = self.deg_model.update_asoh(previous_asoh=my_asoh,
+                                              new_inputs=previous_inputs,
+                                              new_transients=my_transients,
+                                              new_measurements=new_measurement)
+
+        # Convert this back to filter lingo
+        output[:, :self.num_transients] = new_transients.to_numpy()
+        output[:, self.num_transients:] = deg_asoh.get_parameters(names=self.asoh_inputs)
+        output = self.hidden_conversion.inverse_transform_samples(transformed_samples=output)
+        return output
+
+    def predict_measurement(self,
+                            hidden_states: np.ndarray,
+                            controls: np.ndarray) -> np.ndarray:
+        # First, transform the controls into ECM inputs
+        inputs = self.inputs.make_copy(values=self.control_conversion.transform_samples(samples=controls))
+
+        # Now, iterate through hidden states to compute terminal voltage
+        my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
+        outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
+                                                             transient_state=my_transients,
+                                                             asoh=my_asoh)
+        # Convert to filter lingo
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        return outputs
diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 7f06f60..9a9bde6 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -1,294 +1,294 @@
-"""Tools for writing state estimates to HDF5 files"""
-from contextlib import AbstractContextManager
-from typing import Union, Optional, Literal, Dict, Any, Iterator
-from pathlib import Path
-import json
-
-from flatten_dict import flatten
-from pydantic import BaseModel, Field, PrivateAttr
-import numpy as np
-import h5py
-
-from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
-from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
-
-OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
-
-
-def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
-                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
-    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
-
-    Args:
-        state: State to be stored
-        what: What to store
-        tag: Name of the distribution (e.g., state, outputs)
-    """
-    if what == 'full':
-        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
-    elif what == 'mean_cov':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
-    elif what == 'mean_var':
-        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
-    elif what == 'mean':
-        return {f'{tag}_mean': state.get_mean()}
-    else:
-        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
-
-
-# TODO (wardlt): Consider writing only every N timesteps
-class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
-    """Write state estimation data to an HDF5 file incrementally
-
-    Args:
-        hdf5_output: Path to an HDF5 file or group within a file in which to write data
-        storage_key: Name of the group within the file to store all states
-        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
-            Default is to use LZF compression.
-        resizable: Whether to allow the file to be shrunk or expanded
-        per_timestep: Which information to store at each timestep:
-            - `full`: All available information about the estimated state
-            - `mean_cov`: The mean and covariance of the estimated state
-            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
-            - `mean`: Only the mean
-            - `none`: No information
-        per_cycle: Which information to write at the first step of a cycle. The options are the same
-            as `per_timestep`.
-    """
-
-    # Attributes defining where and how to write
-    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
-    """File or already-open HDF5 file in which to store data"""
-    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
-    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
-    storage_key: str = 'state_estimates'
-    """Name of the group in which to store the estimates"""
-    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
-    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
-    resizable: bool = True
-    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
-
-    # Attributes defining what is written
-    per_timestep: OutputType = 'mean'
-    """What information to write each timestep"""
-    per_cycle: OutputType = 'full'
-    """What information to store at the first timestep each cycle"""
-
-    # State used only while in writing mode
-    _file_handle: Optional[h5py.File] = PrivateAttr(None)
-    """Handle to an open file"""
-    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
-    """Handle to the group being written to"""
-    position: Optional[int] = None
-    """Index of the next step to be written"""
-
-    def __enter__(self):
-        """Open the file and store the group in which to write data"""
-        if not isinstance(self.hdf5_output, h5py.Group):
-            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
-        else:
-            root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
-        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
-        return self
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
-
-    @property
-    def is_ready(self) -> bool:
-        """Whether the class is ready to write estimates"""
-        return self._group_handle is not None
-
-    def _check_if_ready(self):
-        """Internal: raise exception if class is not ready to write"""
-        if not self.is_ready:
-            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
-
-    def prepare(self,
-                estimator: OnlineEstimator,
-                expected_steps: Optional[int] = None,
-                expected_cycles: Optional[int] = None):
-        """
-        Create the necessary groups and store metadata about the OnlineEstimator
-
-        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
-
-        Args:
-              estimator: Estimator being used to create estimates
-              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
-              expected_cycles: Expected number of cycles.
-        """
-        self._check_if_ready()
-        if not self.resizable and (expected_steps is None or expected_cycles is None):
-            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
-
-        # Put the metadata in the attributes of the group
-        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
-        self._group_handle.attrs['state_names'] = estimator.state_names
-        self._group_handle.attrs['output_names'] = estimator.output_names
-        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
-        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
-        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
-        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
-
-        # Update accordingly
-        state = estimator.state
-        num_outputs = estimator.num_output_dimensions
-        # TODO (wardlt): Use actual output class employed by estimator
-        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
-                                      covariance=np.zeros((num_outputs, num_outputs)))
-
-        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
-                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
-            # Determine what to write
-            if what == "none":
-                continue
-            to_insert = {'time': np.array(0.)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
-            my_group = self._group_handle.create_group(where)
-            for key, value in to_insert.items():
-                if self.resizable:
-                    starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
-                else:
-                    my_kwargs = {'shape': (expected, *value.shape)}
-
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
-
-    def append_step(self,
-                    time: float,
-                    cycle: int,
-                    state: MultivariateRandomDistribution,
-                    output: MultivariateRandomDistribution):
-        """
-        Add a state estimate to the dataset
-
-        Args:
-            time: Test time of timestep
-            cycle: Cycle associated with the timestep
-            state: State to be stored
-            output: Outputs predicted from the estimator
-        """
-        self._check_if_ready()
-
-        # Write the column to the appropriate part of the HDF5 file
-        # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
-            # Determine if we must write
-            if what == "none":
-                continue
-            my_group = self._group_handle[where]
-
-            # Only write the first state for each cycle
-            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
-                continue
-
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
-            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
-
-            # Write it
-            for key, value in to_insert.items():
-                my_dataset: h5py.Dataset = my_group[key]
-
-                # Expand by one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(max(ind + 1, my_dataset.shape[0] + my_dataset.chunks[0]), axis=0)
-
-                my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
-
-        # Increment the step position
-        self.position += 1
-
-
-def read_state_estimates(data_path: Union[str, Path, h5py.Group],
-                         per_timestep: bool = True,
-                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
-                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
-    """
-    Read the state estimates from a file into progressive streams
-
-    Args:
-        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
-        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
-        dist_type: Distribution type to create if the "full" distribution is stored
-
-    Yields:
-        - Time associated with estimate
-        - Distribution of state estimates
-        - Distribution of the output estimates
-    """
-
-    # Open the file and access the group holding the state estimates
-    file = None
-    if isinstance(data_path, (str, Path)):
-        file = h5py.File(data_path, mode='r')
-        try:
-            se_group = file['state_estimates']
-        except ValueError:
-            file.close()
-            raise
-    else:
-        se_group = data_path
-
-    try:
-        # Access the target group to read from
-        tag = 'per_timestep' if per_timestep else 'per_cycle'
-        read_type = json.loads(se_group.attrs['write_settings'])[tag]
-        if read_type == 'full':
-            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
-                # TODO (wardlt): Have Moriae load the correct one automatically
-                raise ValueError(f'Estimates were stored as a {stored_type}'
-                                 f' but you provided dist_type={dist_type.__name__}')
-        elif read_type in ['mean_cov', 'mean_var']:
-            dist_type = MultivariateGaussian
-        elif read_type == 'mean':
-            dist_type = DeltaDistribution
-        elif read_type == 'none':
-            raise ValueError(f'No data was written for {tag}')
-        else:
-            raise NotImplementedError(f'Support for {read_type} not yet implemented')
-        data_group = se_group[tag]
-
-        # Read what data are available
-        data_keys = list(data_group.keys())
-        data_keys.remove('time')
-
-        # Yield the data from the file
-        def _unpack(ind, typ):
-            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
-
-            # Expand variance to covariance
-            if read_type == 'mean_var':
-                values['covariance'] = np.diag(values.pop('variance'))
-            return values
-
-        for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks steps or cycles without data
-                continue
-            # Unpack the dists
-            state_values = _unpack(i, 'state_')
-            state_dist = dist_type(**state_values)
-
-            output_values = _unpack(i, 'output_')
-            output_dist = dist_type(**output_values)
-            yield time, state_dist, output_dist
-    finally:
-        if file is not None:
-            file.close()
+"""Tools for writing state estimates to HDF5 files"""
+from contextlib import AbstractContextManager
+from typing import Union, Optional, Literal, Dict, Any, Iterator
+from pathlib import Path
+import json
+
+from flatten_dict import flatten
+from pydantic import BaseModel, Field, PrivateAttr
+import numpy as np
+import h5py
+
+from moirae.estimators.online import OnlineEstimator, MultivariateRandomDistribution
+from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
+
+OutputType = Literal['full', 'mean_cov', 'mean_var', 'mean', 'none']
+
+
+def _convert_state_to_numpy_dict(state: MultivariateRandomDistribution,
+                                 what: OutputType, tag: str) -> Dict[str, np.ndarray]:
+    """Convert a multivariate distribution to a dictionary of arrays as requested by the user.
+
+    Args:
+        state: State to be stored
+        what: What to store
+        tag: Name of the distribution (e.g., state, outputs)
+    """
+    if what == 'full':
+        return dict((f'{tag}_{k}', v) for k, v in flatten(state.model_dump(), reducer='dot').items())
+    elif what == 'mean_cov':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_covariance': state.get_covariance()}
+    elif what == 'mean_var':
+        return {f'{tag}_mean': state.get_mean(), f'{tag}_variance': np.diag(state.get_covariance())}
+    elif what == 'mean':
+        return {f'{tag}_mean': state.get_mean()}
+    else:
+        raise ValueError('Mode cannot be none' if what == 'none' else f'Unrecognized what: {what}')
+
+
+# TODO (wardlt): Consider writing only every N timesteps
+class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True):
+    """Write state estimation data to an HDF5 file incrementally
+
+    Args:
+        hdf5_output: Path to an HDF5 file or group within a file in which to write data
+        storage_key: Name of the group within the file to store all states
+        dataset_options: Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`.
+            Default is to use LZF compression.
+        resizable: Whether to allow the file to be shrunk or expanded
+        per_timestep: Which information to store at each timestep:
+            - `full`: All available information about the estimated state
+            - `mean_cov`: The mean and covariance of the estimated state
+            - `mean_var`: The mean and variance (i.e., diagonal of covariance matrix) of the estimated state
+            - `mean`: Only the mean
+            - `none`: No information
+        per_cycle: Which information to write at the first step of a cycle. The options are the same
+            as `per_timestep`.
+    """
+
+    # Attributes defining where and how to write
+    hdf5_output: Union[Path, str, h5py.Group] = Field(exclude=True)
+    """File or already-open HDF5 file in which to store data"""
+    file_options: Dict[str, Any] = Field(default_factory=lambda: dict(rdcc_nbytes=1024 ** 2 * 16, rdcc_w0=0))
+    """Options employed when opening the HDFt file. See :meth:`~h5py.File`"""
+    storage_key: str = 'state_estimates'
+    """Name of the group in which to store the estimates"""
+    dataset_options: Dict[str, Any] = Field(default_factory=lambda: dict(compression='lzf'))
+    """Option used when initializing storage. See :meth:`~h5py.Group.create_dataset`"""
+    resizable: bool = True
+    """Whether to use `resizable datasets <https://docs.h5py.org/en/stable/high/dataset.html#resizable-datasets>`_."""
+
+    # Attributes defining what is written
+    per_timestep: OutputType = 'mean'
+    """What information to write each timestep"""
+    per_cycle: OutputType = 'full'
+    """What information to store at the first timestep each cycle"""
+
+    # State used only while in writing mode
+    _file_handle: Optional[h5py.File] = PrivateAttr(None)
+    """Handle to an open file"""
+    _group_handle: Optional[h5py.Group] = PrivateAttr(None)
+    """Handle to the group being written to"""
+    position: Optional[int] = None
+    """Index of the next step to be written"""
+
+    def __enter__(self):
+        """Open the file and store the group in which to write data"""
+        if not isinstance(self.hdf5_output, h5py.Group):
+            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
+        else:
+            root = self.hdf5_output
+        if self.storage_key not in root:
+            root.create_group(self.storage_key)
+        self._group_handle = root.get(self.storage_key)
+        self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+        return self
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        """Close the file and stop being ready to write"""
+        if self._file_handle is not None:
+            self._file_handle.close()
+            self._file_handle = None
+        self._group_handle = None
+
+    @property
+    def is_ready(self) -> bool:
+        """Whether the class is ready to write estimates"""
+        return self._group_handle is not None
+
+    def _check_if_ready(self):
+        """Internal: raise exception if class is not ready to write"""
+        if not self.is_ready:
+            raise ValueError(f'{self.__class__.__name__} is not ready to write. Open it using a `with` statement.')
+
+    def prepare(self,
+                estimator: OnlineEstimator,
+                expected_steps: Optional[int] = None,
+                expected_cycles: Optional[int] = None):
+        """
+        Create the necessary groups and store metadata about the OnlineEstimator
+
+        Additional keyword arguments are passed to :meth:`~h5py.Group.create_dataset`.
+
+        Args:
+              estimator: Estimator being used to create estimates
+              expected_steps: Expected number of estimation timesteps. Required if not :attr:`resizable`.
+              expected_cycles: Expected number of cycles.
+        """
+        self._check_if_ready()
+        if not self.resizable and (expected_steps is None or expected_cycles is None):
+            raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+
+        # Put the metadata in the attributes of the group
+        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
+        self._group_handle.attrs['state_names'] = estimator.state_names
+        self._group_handle.attrs['output_names'] = estimator.output_names
+        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
+        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
+        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
+
+        # Update accordingly
+        state = estimator.state
+        num_outputs = estimator.num_output_dimensions
+        # TODO (wardlt): Use actual output class employed by estimator
+        output = MultivariateGaussian(mean=np.zeros((num_outputs,)),
+                                      covariance=np.zeros((num_outputs, num_outputs)))
+
+        for what, where, expected in [(self.per_timestep, 'per_timestep', expected_steps),
+                                      (self.per_cycle, 'per_cycle', expected_cycles)]:
+            # Determine what to write
+            if what == "none":
+                continue
+            to_insert = {'time': np.array(0.)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Create datasets
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+            my_group = self._group_handle.create_group(where)
+            for key, value in to_insert.items():
+                if self.resizable:
+                    starting_size = 128 if expected is None else expected
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
+                else:
+                    my_kwargs = {'shape': (expected, *value.shape)}
+
+                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+
+    def append_step(self,
+                    time: float,
+                    cycle: int,
+                    state: MultivariateRandomDistribution,
+                    output: MultivariateRandomDistribution):
+        """
+        Add a state estimate to the dataset
+
+        Args:
+            time: Test time of timestep
+            cycle: Cycle associated with the timestep
+            state: State to be stored
+            output: Outputs predicted from the estimator
+        """
+        self._check_if_ready()
+
+        # Write the column to the appropriate part of the HDF5 file
+        # TODO (wardlt): Introduce a batched write implementation.
+        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
+                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+            # Determine if we must write
+            if what == "none":
+                continue
+            my_group = self._group_handle[where]
+
+            # Only write the first state for each cycle
+            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                continue
+
+            # Determine what to write
+            to_insert = {'time': np.array(time)}
+            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+
+            # Write it
+            for key, value in to_insert.items():
+                my_dataset: h5py.Dataset = my_group[key]
+
+                # Expand by one chunk size if necessary
+                if my_dataset.shape[0] <= ind:
+                    my_dataset.resize(max(ind + 1, my_dataset.shape[0] + my_dataset.chunks[0]), axis=0)
+
+                my_ind = (ind,) + (slice(None),) * value.ndim
+                my_dataset[my_ind] = value
+
+        # Increment the step position
+        self.position += 1
+
+
+def read_state_estimates(data_path: Union[str, Path, h5py.Group],
+                         per_timestep: bool = True,
+                         dist_type: type[MultivariateRandomDistribution] = MultivariateGaussian
+                         ) -> Iterator[tuple[float, MultivariateRandomDistribution, MultivariateRandomDistribution]]:
+    """
+    Read the state estimates from a file into progressive streams
+
+    Args:
+        data_path: Path to the HDF5 file or the group holding state estimates from an already-open file.
+        per_timestep: Whether to read per-timestep rather than per-cycle estiamtes
+        dist_type: Distribution type to create if the "full" distribution is stored
+
+    Yields:
+        - Time associated with estimate
+        - Distribution of state estimates
+        - Distribution of the output estimates
+    """
+
+    # Open the file and access the group holding the state estimates
+    file = None
+    if isinstance(data_path, (str, Path)):
+        file = h5py.File(data_path, mode='r')
+        try:
+            se_group = file['state_estimates']
+        except ValueError:
+            file.close()
+            raise
+    else:
+        se_group = data_path
+
+    try:
+        # Access the target group to read from
+        tag = 'per_timestep' if per_timestep else 'per_cycle'
+        read_type = json.loads(se_group.attrs['write_settings'])[tag]
+        if read_type == 'full':
+            if dist_type.__name__ != (stored_type := se_group.attrs['distribution_type']):
+                # TODO (wardlt): Have Moriae load the correct one automatically
+                raise ValueError(f'Estimates were stored as a {stored_type}'
+                                 f' but you provided dist_type={dist_type.__name__}')
+        elif read_type in ['mean_cov', 'mean_var']:
+            dist_type = MultivariateGaussian
+        elif read_type == 'mean':
+            dist_type = DeltaDistribution
+        elif read_type == 'none':
+            raise ValueError(f'No data was written for {tag}')
+        else:
+            raise NotImplementedError(f'Support for {read_type} not yet implemented')
+        data_group = se_group[tag]
+
+        # Read what data are available
+        data_keys = list(data_group.keys())
+        data_keys.remove('time')
+
+        # Yield the data from the file
+        def _unpack(ind, typ):
+            values = dict((k[len(typ):], data_group[k][ind]) for k in data_keys if k.startswith(typ))
+
+            # Expand variance to covariance
+            if read_type == 'mean_var':
+                values['covariance'] = np.diag(values.pop('variance'))
+            return values
+
+        for i, time in enumerate(data_group['time']):
+            if np.isnan(time):  # NaN marks steps or cycles without data
+                continue
+            # Unpack the dists
+            state_values = _unpack(i, 'state_')
+            state_dist = dist_type(**state_values)
+
+            output_values = _unpack(i, 'output_')
+            output_dist = dist_type(**output_values)
+            yield time, state_dist, output_dist
+    finally:
+        if file is not None:
+            file.close()
-- 
2.43.0


From dae1372160dfe21d3e4cfbed4a572a2b65ce0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 34/48] fix: do not leave estimates which could not be written
 completely in HDF5 files

---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 9a9bde6..6df9e3f 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -198,9 +198,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
                 continue
 
             # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            to_insert = _convert_state_to_numpy_dict(state, what, 'state')
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+            to_insert['time'] = np.array(time)  # Last, as having a time marks an estimate as complete
 
             # Write it
             for key, value in to_insert.items():
-- 
2.43.0


From af204e3865b7c3e37e5991e0bc3947437483bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 35/48] fix: keep the metadata of existing estimates when
 refusing to overwrite them

---
 moirae/interface/hdf5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 6df9e3f..66047c7 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -129,6 +129,11 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         if not self.resizable and (expected_steps is None or expected_cycles is None):
             raise ValueError('Expected sizes must be provided if not writing in resizable mode')
 
+        # Make sure there is nothing to overwrite before changing anything
+        for what, where in [(self.per_timestep, 'per_timestep'), (self.per_cycle, 'per_cycle')]:
+            if what != "none" and where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+
         # Put the metadata in the attributes of the group
         self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
         self._group_handle.attrs['state_names'] = estimator.state_names
@@ -156,8 +161,6 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
 
             # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
             my_group = self._group_handle.create_group(where)
             for key, value in to_insert.items():
                 if self.resizable:
-- 
2.43.0


From c2ae2a9de292c5fec49450e65d5fc5c00748b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 36/48] fix: refuse to write over timesteps when a file is
 opened again

---
 moirae/interface/hdf5.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 66047c7..caf566b 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -79,6 +79,8 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
     """Handle to an open file"""
     _group_handle: Optional[h5py.Group] = PrivateAttr(None)
     """Handle to the group being written to"""
+    _has_steps: bool = PrivateAttr(False)
+    """Whether the group already contained timesteps when it was opened"""
     position: Optional[int] = None
     """Index of the next step to be written"""
 
@@ -92,6 +94,10 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             root.create_group(self.storage_key)
         self._group_handle = root.get(self.storage_key)
         self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
+
+        # Determine whether there are already steps, which must not be overwritten
+        times = self._group_handle.get('per_timestep/time')
+        self._has_steps = times is not None and times.shape[0] > 0 and not np.isnan(times[0])
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -186,6 +192,8 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             output: Outputs predicted from the estimator
         """
         self._check_if_ready()
+        if self._has_steps and self.per_timestep != 'none':
+            raise ValueError(f'{self.storage_key} already contains timesteps. Overwriting not yet supported')
 
         # Write the column to the appropriate part of the HDF5 file
         # TODO (wardlt): Introduce a batched write implementation.
-- 
2.43.0


From af12b804857ca02e293a0aeb9e32947eba18949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 37/48] fix: reject datasets without time series when
 extracting the open-circuit voltage

---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index f7678bd..bde56ef 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -74,7 +74,7 @@ class OCVExtractor(BaseExtractor):
 
     def check_data(self, data: CellDataset):
         # Check if there is a raw_data table
-        if 'raw_data' not in data.tables:
+        if data.tables.get('raw_data') is None:
             raise ValueError('`raw_data` table is required')
 
         # Compute the per-cycle capacity if unavailable
-- 
2.43.0


From 6009a9a5d14eb76d3aac4abca5a458eed379c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 38/48] fix: keep the shape of capacities which are set in
 Amp-seconds

---
 moirae/models/ecm/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5ed956e..66c6e08 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -4,7 +4,7 @@ from typing import List, Optional, Union
 from pydantic import Field, field_validator
 import numpy as np
 
-from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
+from moirae.models.base import HealthVariable, ListParameter, ScalarParameter, enforce_dimensions
 from .utils import SOCInterpolatedHealth
 
 
@@ -25,7 +25,7 @@ class MaxTheoreticalCapacity(HealthVariable):
         """
         Sets the capacity based on specified value in Amp-seconds
         """
-        self.base_values = amp_seconds / 3600.
+        self.base_values = enforce_dimensions(np.divide(amp_seconds, 3600.), dim=0)
 
     @property
     def amp_hour(self) -> float:
-- 
2.43.0


From a77e11ffafd8058d960db1b6fde543b8463aa16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 39/48] fix: step every member of a Thevenin batch if only the
 previous inputs are batched

---
 moirae/models/thevenin/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/moirae/models/thevenin/__init__.py b/moirae/models/thevenin/__init__.py
index 2caad10..98a5cc9 100644
--- a/moirae/models/thevenin/__init__.py
+++ b/moirae/models/thevenin/__init__.py
@@ -22,19 +22,22 @@ class TheveninModel(CellModel):
         self.isothermal = isothermal
         # TODO (wardlt): Add a maximum timestep size? Victor was using that to avoid the issues with the integrator
 
-    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput) -> Iterator[Model]:
+    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput,
+                     batch_size: int) -> Iterator[Model]:
         """
         Generate a model for each member of the batch of experimental conditions
 
         Args:
             transient: Batch of transient states
             asoh: Batch of health variables
+            inputs: Batch of inputs at the end of the step
+            batch_size: Number of members in the batch
 
         Yields:
             A model for each member of the batch
         """
 
-        for b in range(max(transient.batch_size, asoh.batch_size, inputs.batch_size)):
+        for b in range(batch_size):
             # The value of each member of the transient or ASOH is a 2D array with the first dimension either 1
             #  or batch_size. The % signs below are a short syntax for either using the same value for all batches
             #  (anything mod 1 is 0) or the appropriate member of the batch
@@ -73,11 +76,12 @@ class TheveninModel(CellModel):
             asoh: TheveninASOH
     ) -> TheveninTransient:
         # Initialize the array in which to store output values
-        batch_size = max(transient_state.batch_size, asoh.batch_size, new_inputs.batch_size)
+        batch_size = max(transient_state.batch_size, asoh.batch_size, previous_inputs.batch_size,
+                         new_inputs.batch_size)
         output_array = np.zeros((batch_size, len(transient_state)))
 
         # Iterate over models representing each member of the batch
-        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs)):
+        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs, batch_size)):
             # Propagate the system under a constant current load
             # TODO (wardlt): Make current time-dependent, which is possible by passing a function to add_step
             exp = Experiment()
-- 
2.43.0


From 52886c859d06fb31827282465fe61b26eab8153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 40/48] fix: return a row per hidden state from wrapped models
 whose results depend on none of them

---
 moirae/estimators/online/utils/model.py | 32 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 5c39c3b..3ca6d42 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -117,8 +117,13 @@ class CellModelWrapper(BaseCellWrapper):
                                                                 transient_state=transients,
                                                                 asoh=self.asoh)
 
+        # The transients are not batched if they depend on none of the hidden states
+        new_transients = new_transients.to_numpy()
+        if new_transients.shape[0] == 1:
+            new_transients = np.repeat(new_transients, np.atleast_2d(hidden_states).shape[0], axis=0)
+
         # Convert back to filter language
-        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients.to_numpy())
+        new_transients = self.hidden_conversion.inverse_transform_samples(transformed_samples=new_transients)
 
         return new_transients
 
@@ -135,10 +140,14 @@ class CellModelWrapper(BaseCellWrapper):
         # Get output
         measurements = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
                                                                   transient_state=transients,
-                                                                  asoh=self.asoh)
+                                                                  asoh=self.asoh).to_numpy()
+
+        # The outputs are not batched if they depend on none of the hidden states
+        if measurements.shape[0] == 1:
+            measurements = np.repeat(measurements, np.atleast_2d(hidden_states).shape[0], axis=0)
 
         # Convert back to filter lingo
-        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements.to_numpy())
+        measurements = self.output_conversion.inverse_transform_samples(transformed_samples=measurements)
 
         return measurements
 
@@ -231,8 +240,12 @@ class DegradationModelWrapper(BaseCellWrapper):
                                               new_transients=self.transients,
                                               new_measurements=new_measurements)
 
-        return self.hidden_conversion.inverse_transform_samples(
-            transformed_samples=deg_asoh.get_parameters(names=self.asoh_inputs))
+        # The A-SOH is not batched if its degradation depends on none of the hidden states
+        deg_values = deg_asoh.get_parameters(names=self.asoh_inputs)
+        if deg_values.shape[0] == 1:
+            deg_values = np.repeat(deg_values, np.atleast_2d(hidden_states).shape[0], axis=0)
+
+        return self.hidden_conversion.inverse_transform_samples(transformed_samples=deg_values)
 
     def predict_measurement(self,
                             hidden_states: np.ndarray,
@@ -402,7 +415,12 @@ class JointCellModelWrapper(BaseCellWrapper):
         my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
         outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
                                                              transient_state=my_transients,
-                                                             asoh=my_asoh)
+                                                             asoh=my_asoh).to_numpy()
+
+        # The outputs are not batched if they depend on none of the hidden states
+        if outputs.shape[0] == 1:
+            outputs = np.repeat(outputs, np.atleast_2d(hidden_states).shape[0], axis=0)
+
         # Convert to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
         return outputs
-- 
2.43.0


From 1084834b8151b45010cb8cc33c23777959d16fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 41/48] fix: store estimates as floating-point numbers even if
 the initial state is given as integers

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index caf566b..5db7acb 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -175,7 +175,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
                 else:
                     my_kwargs = {'shape': (expected, *value.shape)}
 
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+                my_group.create_dataset(key, dtype=float, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
 
     def append_step(self,
                     time: float,
-- 
2.43.0


From b614a7ae5c102506e4315ba7d841956e060c52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 42/48] fix: close files which have no estimates when reading
 them

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 5db7acb..e35c42b 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -252,7 +252,7 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
         file = h5py.File(data_path, mode='r')
         try:
             se_group = file['state_estimates']
-        except ValueError:
+        except KeyError:
             file.close()
             raise
     else:
-- 
2.43.0


From 842cd4bcf69e32c2d823f39cd20e485e4f40d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 43/48] fix: do not truncate updated states if hidden states
 are given as integers

---
 moirae/estimators/online/utils/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 3ca6d42..84b3732 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -383,7 +383,7 @@ class JointCellModelWrapper(BaseCellWrapper):
         my_asoh, my_transients = self.create_cell_model_inputs(hidden_states)
 
         # Produce an updated estimate for the transient states, hold the ASOH parameters constant
-        output = self.hidden_conversion.transform_samples(samples=hidden_states).copy()
+        output = self.hidden_conversion.transform_samples(samples=hidden_states).astype(float)
         new_transients = self.cell_model.update_transient_state(previous_inputs=previous_inputs,
                                                                 new_inputs=new_inputs,
                                                                 transient_state=my_transients,
-- 
2.43.0


From 4dbcaedd998ab6864fb53e9202b2b0fcedffcd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 44/48] fix: do not change the array of states returned by a
 model when adding process noise

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 1a1241c..a96f9d2 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -317,7 +317,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1b: evolve hidden states based on the model and the previous input
         x_updated = self._evolve_hidden(hidden_states=x_hid, new_controls=new_controls, **kwargs)
         # Don't forget to include process noise!
-        x_updated += w_hid
+        x_updated = x_updated + w_hid
         # Assemble x_k_minus
         x_k_minus_info = self._assemble_unscented_estimate(samples=x_updated)
         x_k_minus = MultivariateGaussian.model_validate(x_k_minus_info)
-- 
2.43.0


From 2141c983ca3bcbe3001dc20645594aa98e326e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 45/48] fix: reject marking variables which do not exist as
 updatable

---
 moirae/models/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 3414de3..97e8c18 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -210,7 +210,10 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             name: Name of the variable to be set as updatable
         """
 
-        for n, m in zip(*self._get_model_chain(name)):
+        names, models = self._get_model_chain(name)
+        if names[-1] not in models[-1].model_fields:
+            raise AttributeError(f'There is no variable named {name}')
+        for n, m in zip(names, models):
             m.updatable.add(n)
 
     def _iter_over_submodels(self) -> Iterator['HealthVariable']:
-- 
2.43.0


From 0f0c84777ee0f34bc8ee2e21b54b411921335640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 46/48] fix: leave all parameters unchanged when an update of
 several is rejected

---
 moirae/models/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 97e8c18..e1a3cfb 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -382,6 +382,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             names = list(k for k, v in self.iter_parameters())
 
         end = pos = 0
+        to_set = []  # Nothing is set until all of the names and values are known to be valid
         for name in names:
             # Get the associated model, and which attribute to set
             my_names, models = self._get_model_chain(name)
@@ -405,7 +406,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             if pos + num_params > values.shape[-1]:
                 raise ValueError(f'Required at least {end} values, but only provided {len(values)}')
             new_value = values[:, pos:end]
-            setattr(model, attr, new_value)
+            to_set.append((model, attr, new_value))
 
             # Increment the starting point for the next parameter
             pos = end
@@ -414,6 +415,10 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
         if end != values.shape[-1]:
             raise ValueError(f'Did not use all parameters. Provided {len(values)}, used {end}')
 
+        # Set them
+        for model, attr, new_value in to_set:
+            setattr(model, attr, new_value)
+
     def make_copy(self, values: np.ndarray, names: Optional[Sequence[str]] = None) -> Self:
         """
         Create a copy of the current object with values specified by numpy.ndarray
-- 
2.43.0


From 38df911da3ffb06fccd7feaa9cb5f3458bf1a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 47/48] fix: export histories in which optional quantities are
 missing at some steps

---
 moirae/simulator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index e8219fd..404be20 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -156,11 +156,12 @@ class Simulator:
         batch_size = max(x.batch_size for history in histories for x in history)
 
         def _squish(params: List[GeneralContainer]) -> pd.DataFrame:
-            values = np.concatenate([
-                x.to_numpy() if x.batch_size == batch_size else np.repeat(x.to_numpy(), batch_size, axis=0)
-                for x in params], axis=0
-            )
-            return pd.DataFrame(values, columns=params[0].all_names)
+            # Optional quantities, such as the temperature, may be missing at some of the steps
+            names = max((x.all_names for x in params), key=len)
+            values = np.full((len(params), batch_size, len(names)), np.nan)
+            for i, x in enumerate(params):
+                values[i][:, [names.index(n) for n in x.all_names]] = x.to_numpy()
+            return pd.DataFrame(values.reshape((-1, len(names))), columns=names)
 
         # Make a dataframe of each component of the history
         member = np.tile(np.arange(batch_size), len(self.input_history))
-- 
2.43.0


From 7e7e4e39db2ac5874782960a6a149616df10d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 48/48] fix: process noise given for only one part of a joint
 estimator is used

---
 moirae/estimators/online/joint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index cd028ff..350c12c 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -195,7 +195,12 @@ class JointEstimator(OnlineEstimator):
         else:
             joint_hidden_covariance = covariance_joint
         if joint_covariance_process_noise is None:
-            if (transient_covariance_process_noise is not None) and (asoh_covariance_process_noise is not None):
+            # If only one of them is provided, assume the default noise of the filter for the other
+            if (transient_covariance_process_noise is not None) or (asoh_covariance_process_noise is not None):
+                if transient_covariance_process_noise is None:
+                    transient_covariance_process_noise = 1.0e-08 * np.eye(joint_wrapper.num_transients)
+                if asoh_covariance_process_noise is None:
+                    asoh_covariance_process_noise = 1.0e-08 * np.eye(joint_wrapper.num_asoh)
                 joint_covariance_process_noise = block_diag(transient_covariance_process_noise,
                                                             asoh_covariance_process_noise)
         # Preparing controls
-- 
2.43.0

