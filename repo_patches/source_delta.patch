From 148bc684187c8cff8f921fe5249d9401b4b12e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 01/41] fix: previous consecutive duration counts the trailing
 run, not the leading one

---
 flixOpt/features.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..c497952 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -603,7 +603,9 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        length_of_last_duration = len(binary_values) - (zero_indices[-1] + 1 if zero_indices.size > 0 else 0)
+        if length_of_last_duration == 0:  # Last value is 0
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
@@ -612,7 +614,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From ccb30458f66301d5250e2402462d9e52e5419dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 02/41] fix: 'lastValueOfSim' equates the first with the final
 charge state

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..6a559ef 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -496,7 +496,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From 55a4ba3460f00e58ac9f4dc6da26fef1fda9772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 03/41] fix: final charge state limits apply also without a
 given initial charge state

---
 flixOpt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 6a559ef..af61abe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
-- 
2.43.0


From 96df751a5b8802b04cd25f399ec7e138567f5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 04/41] fix: an optional investment in a Flow is not forced by
 the bounds of its flow_rate

---
 flixOpt/elements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..b63e265 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -307,7 +307,10 @@ class FlowModel(ElementModel):
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
+            # If the Flow can be off or is not invested in, its flow_rate must be able to be 0
+            lower_bound=self.absolute_flow_rate_bounds[0]
+            if self.element.on_off_parameters is None and not (self.with_investment and self.element.size.optional)
+            else 0,
             upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
-- 
2.43.0


From 4fe1e3ce83918c4038de905f0a982c22c81c8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 05/41] fix: an optional investment in a Storage is not forced
 by the bounds of its charge_state

---
 flixOpt/components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index af61abe..394d30c 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -524,7 +524,10 @@ class StorageModel(ComponentModel):
             )
         else:
             return (
-                relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
+                # If the Storage is not invested in, its charge_state must be able to be 0
+                0
+                if self.element.capacity_in_flow_hours.optional
+                else relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
                 relative_upper_bound * self.element.capacity_in_flow_hours.maximum_size,
             )
 
-- 
2.43.0


From 6ee243f5fc8e6a4d3730ae446876f42e04bea029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 06/41] fix: a Flow of size 0 does not get the default size

---
 flixOpt/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index b63e265..70a1608 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -217,7 +217,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = size if size is not None else CONFIG.modeling.BIG  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
-- 
2.43.0


From f1f1cb278cbef7f0a9df5544e89b4ee01bf17257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 07/41] fix: investment sizes of 0 are respected

---
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index c497952..d713e15 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..fbf7c8f 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -76,7 +76,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = maximum_size if maximum_size is not None else CONFIG.modeling.BIG  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -87,11 +87,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self.fixed_size if self.fixed_size is not None else self._minimum_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self.fixed_size if self.fixed_size is not None else self._maximum_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From 71ea12b6a5933059567a3f650ac516e675d9fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 08/41] fix: single previous values of several flows are not
 taken for a history

---
 flixOpt/features.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index d713e15..78ecbe5 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -563,11 +563,8 @@ class OnOffModel(ElementModel):
         if not previous_values:
             return np.array([0])
         else:  # Convert to 2D-array and compute binary on/off states
-            previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+            previous_values = np.array([np.atleast_1d(values) for values in previous_values])
+            return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From 2f555936355b69e7bc060a4a95c344f9c0252283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 09/41] fix: sums over a part of a variable's indices use the
 matching factors

---
 flixOpt/math_modeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..6aa329a 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1129,7 +1129,8 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
-            return sum(pyomo_variable[summand.indices[j]] * summand.factor_vec[j] for j in summand.indices)
+            indices = [summand.indices[0]] * len(summand.factor_vec) if len(summand.indices) == 1 else summand.indices
+            return sum(pyomo_variable[i] * factor for i, factor in zip(indices, summand.factor_vec, strict=True))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
         if summand.length == 1:
-- 
2.43.0


From c5664055b8aac5a36ad8a0e926be0a7289fc49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 10/41] fix: binary results are rounded, not truncated

---
 flixOpt/math_modeling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 6aa329a..c5bc14e 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1013,11 +1013,11 @@ class PyomoModel(ModelingLanguage):
         for variable in math_model.variables:
             raw_results = self.mapping[variable].get_values().values()  # .values() of dict, because {0:0.1, 1:0.3,...}
             if variable.is_binary:
-                dtype = np.int8  # geht das vielleicht noch kleiner ???
+                # Solvers return binaries within a tolerance (0.9999999), so round before the conversion
+                result = np.rint(np.fromiter(raw_results, dtype=float)).astype(np.int8)
             else:
-                dtype = float
-            # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+                # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
+                result = np.fromiter(raw_results, dtype=float)
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From 608fc9593f406d4033afad73aa096e19c8cd0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 11/41] fix: all_inequations of an ElementModel include those
 of its sub models

---
 flixOpt/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..ec2539c 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -470,9 +470,10 @@ class ElementModel:
     def all_inequations(self) -> Dict[str, Inequation]:
         all_ineqs = self.inequations.copy()
         for sub_model in self.sub_models:
-            for key in sub_model.all_inequations:
+            for key, value in sub_model.all_inequations.items():
                 if key in all_ineqs:
                     raise KeyError(f"Duplicate key found: '{key}' in both main model and submodel!")
+                all_ineqs[key] = value
         return all_ineqs
 
     @property
-- 
2.43.0


From 34777435df8e472733ed8c13223590bcaf1777f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 12/41] fix: the effect values given by the user are not
 modified

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..8d32c24 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,7 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
-        standard_value = nested_values.pop(None, None)
+        standard_value = nested_values.get(None)
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
             transformed_values[None] = _create_time_series(
-- 
2.43.0


From b7f0d6a41bec3f1d7d4a1172155626fe5280c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 13/41] fix: Transmission with absolute_losses of 0 can be
 modeled

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 394d30c..41d59e7 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if self.element.absolute_losses is not None and in_flow.model._on is not None:
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From bf6d8953cc7ba25eb9b0c87c8b80cf1267ef7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 14/41] fix: effects per running hour or switch on can be given
 as arrays

---
 flixOpt/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index fbf7c8f..d782acd 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -139,8 +139,12 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on if effects_per_switch_on is not None else {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour if effects_per_running_hour is not None else {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From 4a579ea42abd1e2339ad01a3de5e784c169d27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 15/41] fix: Flow with a profile but without a size can be
 created (warning instead of error)

---
 flixOpt/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 70a1608..5807066 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -267,7 +267,7 @@ class Flow(Element):
             logger.warning(
                 f'Flow "{self.label}" has no size assigned, but a "fixed_relative_profile". '
                 f'The default size is {CONFIG.modeling.BIG}. As "flow_rate = size * fixed_relative_profile", '
-                f'the resulting flow_rate will be very high. To fix this, assign a size to the Flow {self}.'
+                f'the resulting flow_rate will be very high. To fix this, assign a size to the Flow "{self.label_full}".'
             )
 
     @property
-- 
2.43.0


From cc2877290730e8f75e34cbba19b2233e5e67d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 16/41] fix: relative bounds of a Flow can be given as
 TimeSeriesData

---
 flixOpt/elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 5807066..a54513a 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -258,7 +258,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            value.data if isinstance(value, TimeSeriesData) else value
+            for value in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(relative_minimum > relative_maximum):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
-- 
2.43.0


From d0866d190492f2451e5c071b74bc24092fa74c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 17/41] fix: ready-made converters accept TimeSeriesData for
 their parameters

---
 flixOpt/linear_converters.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/flixOpt/linear_converters.py b/flixOpt/linear_converters.py
index 65e6e88..1869e0f 100644
--- a/flixOpt/linear_converters.py
+++ b/flixOpt/linear_converters.py
@@ -8,7 +8,7 @@ from typing import Dict, Optional
 import numpy as np
 
 from .components import LinearConverter
-from .core import Numeric_TS, TimeSeriesData
+from .core import Numeric, Numeric_TS, TimeSeriesData
 from .elements import Flow
 from .interface import OnOffParameters
 
@@ -167,7 +167,7 @@ class CoolingTower(LinearConverter):
             label,
             inputs=[P_el, Q_th],
             outputs=[],
-            conversion_factors=[{P_el: 1, Q_th: -specific_electricity_demand}],
+            conversion_factors=[{P_el: -1, Q_th: specific_electricity_demand}],
             on_off_parameters=on_off_parameters,
             meta_data=meta_data,
         )
@@ -232,7 +232,7 @@ class CHP(LinearConverter):
 
         check_bounds(eta_th, 'eta_th', self.label_full, 0, 1)
         check_bounds(eta_el, 'eta_el', self.label_full, 0, 1)
-        check_bounds(eta_el + eta_th, 'eta_th+eta_el', self.label_full, 0, 1)
+        check_bounds(_data_of(eta_el) + _data_of(eta_th), 'eta_th+eta_el', self.label_full, 0, 1)
 
 
 class HeatPumpWithSource(LinearConverter):
@@ -265,7 +265,10 @@ class HeatPumpWithSource(LinearConverter):
 
         # super:
         electricity = {P_el: COP, Q_th: 1}
-        heat_source = {Q_ab: COP / (COP - 1), Q_th: 1}
+        heat_source_factor = _data_of(COP) / (_data_of(COP) - 1)
+        if isinstance(COP, TimeSeriesData):
+            heat_source_factor = TimeSeriesData(heat_source_factor, COP.agg_group, COP.agg_weight)
+        heat_source = {Q_ab: heat_source_factor, Q_th: 1}
 
         super().__init__(
             label,
@@ -284,6 +287,11 @@ class HeatPumpWithSource(LinearConverter):
         check_bounds(COP, 'eta_th', self.label_full, 1, 20)
 
 
+def _data_of(value: Numeric_TS) -> Numeric:
+    """Returns the bare data of a TimeSeriesData, or the value itself."""
+    return value.data if isinstance(value, TimeSeriesData) else value
+
+
 def check_bounds(
     value: Numeric_TS, parameter_label: str, element_label: str, lower_bound: Numeric_TS, upper_bound: Numeric_TS
 ):
-- 
2.43.0


From a77253355415fa823d16be4dbfdd17f2b4fbd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 18/41] fix: durations of operation can be limited by series
 that are constant in the active period

---
 flixOpt/features.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 78ecbe5..3b3fcbf 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -397,7 +397,9 @@ class OnOffModel(ElementModel):
 
         if maximum_duration is not None:
             first_step_max: Skalar = (
-                maximum_duration.active_data[0] if maximum_duration.is_array else maximum_duration.active_data
+                maximum_duration.active_data
+                if np.isscalar(maximum_duration.active_data)
+                else maximum_duration.active_data[0]
             )
             if previous_duration + system_model.dt_in_hours[0] > first_step_max:
                 logger.warning(
@@ -453,7 +455,7 @@ class OnOffModel(ElementModel):
             # Note: (previous values before t=1 are not recognised!)
             # eq: duration(t) >= minimum_duration(t) * [On(t) - On(t+1)] for t=1..(n-1)
             # eq: -duration(t) + minimum_duration(t) * On(t) - minimum_duration(t) * On(t+1) <= 0
-            if minimum_duration.is_scalar:
+            if np.isscalar(minimum_duration.active_data):
                 minimum_duration_used = minimum_duration.active_data
             else:
                 minimum_duration_used = minimum_duration.active_data[0:-1]  # only checked for t=1...(n-1)
@@ -467,7 +469,9 @@ class OnOffModel(ElementModel):
             )  # minimum_duration * On(t)
 
             first_step_min: Skalar = (
-                minimum_duration.active_data[0] if minimum_duration.is_array else minimum_duration.active_data
+                minimum_duration.active_data
+                if np.isscalar(minimum_duration.active_data)
+                else minimum_duration.active_data[0]
             )
             if 0 < duration_in_hours.previous_values < first_step_min:
                 # Force the first step to be = 1, if the minimum_duration is not reached in previous_values
-- 
2.43.0


From 43a875d8113b700617ce5467ee1752631e3675d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 19/41] fix: the plausibility checks of a Transmission are
 applied

---
 flixOpt/components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 41d59e7..8048b4a 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -290,6 +290,7 @@ class Transmission(Component):
 
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
+        self._plausibility_checks()
 
     def _plausibility_checks(self):
         # check buses:
-- 
2.43.0


From 1c032aafcd9d437653292866b78e4c338261953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 20/41] fix: a numeric duration of the last time step is in
 hours for time series of every unit

---
 flixOpt/flow_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..698aae4 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -52,6 +52,10 @@ class FlowSystem:
         if self.time_series.dtype == np.dtype('datetime64[ns]'):
             self.time_series = self.time_series.astype('datetime64[us]')
 
+        if isinstance(last_time_step_hours, (int, float, np.integer, np.floating)) and not isinstance(
+            last_time_step_hours, np.timedelta64
+        ):  # Hours, independent of the unit of the time_series
+            last_time_step_hours = np.timedelta64(round(float(last_time_step_hours) * 3_600_000_000), 'us')
         self.last_time_step_hours = (
             self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
         )
-- 
2.43.0


From 598aa97fb42c99ceeb60b05faf0c23c1f45febcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 21/41] fix: charge state limits varying over time can be used
 with selected time steps

---
 flixOpt/components.py | 4 ++--
 flixOpt/core.py       | 9 +++++++--
 flixOpt/structure.py  | 4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 8048b4a..35272a3 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -217,10 +217,10 @@ class Storage(Component):
     def transform_data(self) -> None:
         super().transform_data()
         self.relative_minimum_charge_state = _create_time_series(
-            'relative_minimum_charge_state', self.relative_minimum_charge_state, self
+            'relative_minimum_charge_state', self.relative_minimum_charge_state, self, with_end=True
         )
         self.relative_maximum_charge_state = _create_time_series(
-            'relative_maximum_charge_state', self.relative_maximum_charge_state, self
+            'relative_maximum_charge_state', self.relative_maximum_charge_state, self, with_end=True
         )
         self.eta_charge = _create_time_series('eta_charge', self.eta_charge, self)
         self.eta_discharge = _create_time_series('eta_discharge', self.eta_discharge, self)
diff --git a/flixOpt/core.py b/flixOpt/core.py
index 9ee489c..08613b7 100644
--- a/flixOpt/core.py
+++ b/flixOpt/core.py
@@ -93,10 +93,13 @@ class TimeSeries:
         Weight for aggregation method, between 0 and 1, normally 1.
     aggregation_group : str
         Group for calculating the aggregation weigth for aggregation method.
+    with_end : bool
+        If True, arrays have one more value, for the end of the last time step.
     """
 
-    def __init__(self, label: str, data: Optional[Numeric_TS]):
+    def __init__(self, label: str, data: Optional[Numeric_TS], with_end: bool = False):
         self.label: str = label
+        self.with_end = with_end
         if isinstance(data, TimeSeriesData):
             self.data = self.make_scalar_if_possible(data.data)
             self.aggregation_weight, self.aggregation_group = data.agg_weight, data.agg_group
@@ -130,13 +133,15 @@ class TimeSeries:
         indices_not_applicable = np.isscalar(self.data) or (self.data is None) or (self.active_indices is None)
         if indices_not_applicable:
             return self.data
+        elif self.with_end:
+            return self.data[np.append(self.active_indices, self.active_indices[-1] + 1)]
         else:
             return self.data[self.active_indices]
 
     @property
     def active_data_vector(self) -> np.ndarray:
         # Always returns the active data as a vector.
-        return utils.as_vector(self.active_data, len(self.active_indices))
+        return utils.as_vector(self.active_data, len(self.active_indices) + self.with_end)
 
     @property
     def is_scalar(self) -> bool:
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index ec2539c..b410489 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -501,7 +501,7 @@ class ElementModel:
 
 
 def _create_time_series(
-    label: str, data: Optional[Union[Numeric_TS, TimeSeries]], element: Element
+    label: str, data: Optional[Union[Numeric_TS, TimeSeries]], element: Element, with_end: bool = False
 ) -> Optional[TimeSeries]:
     """Creates a TimeSeries from Numeric Data and adds it to the list of time_series of an Element.
     If the data already is a TimeSeries, nothing happens and the TimeSeries gets cleaned and returned"""
@@ -511,7 +511,7 @@ def _create_time_series(
         data.clear_indices_and_aggregated_data()
         return data
     else:
-        time_series = TimeSeries(label=f'{element.label_full}__{label}', data=data)
+        time_series = TimeSeries(label=f'{element.label_full}__{label}', data=data, with_end=with_end)
         element.used_time_series.append(time_series)
         return time_series
 
-- 
2.43.0


From 3e339900a305319ddd37f33458e981ae54bb17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:00 +0000
Subject: [PATCH 22/41] fix: series whose length does not fit the time series
 of the system are rejected

---
 flixOpt/flow_system.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 698aae4..fcb93a0 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -109,6 +109,12 @@ class FlowSystem:
     def transform_data(self):
         for element in self.all_elements.values():
             element.transform_data()
+        for time_series in self.all_time_series:
+            length = len(self.time_series) + time_series.with_end
+            if time_series.is_array and len(time_series.data) != length:
+                raise ValueError(
+                    f'The data of {time_series.label} has {len(time_series.data)} values, but {length} are needed.'
+                )
 
     def network_infos(self) -> Tuple[Dict[str, Dict[str, str]], Dict[str, Dict[str, str]]]:
         nodes = {
-- 
2.43.0


From 72f5038385d2949c818aefe32d7de68d5e89fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 23/41] fix: segments whose overlap is cut off at the end hand
 over the flow rates of their last own step

---
 flixOpt/calculation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..9d0f39e 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -483,16 +483,15 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
             flow.previous_flow_rate = flow.model.flow_rate.result[
-                final_index_of_prior_segment
+                self.segment_length - 1
             ]  # TODO: maybe more values?
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[self.segment_length]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From 7ac056a458e4fd41f39f170caebf959ecbb94b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 24/41] fix: segmented calculations use the selected time steps

---
 flixOpt/calculation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 9d0f39e..bb49a49 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -373,7 +373,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -504,9 +504,10 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        stop = min(start + self.segment_length + self.overlap_length, self._total_length)
+        return range(start, stop) if self.time_indices is None else self.time_indices[start:stop]
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From 168877d1dd66b2d2f47bf7b4d7efab76c6e2951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 25/41] fix: start values are restored if a segment can not be
 solved

---
 flixOpt/calculation.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index bb49a49..98070cd 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -368,29 +368,30 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
-        for i in range(self.number_of_segments):
-            name_of_segment = f'Segment_{i + 1}'
-            if self.sub_calculations:
-                self._transfer_start_values(name_of_segment)
-            time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-            # TODO: Add Before Values if available
-            self.sub_calculations.append(calculation)
-            calculation.do_modeling()
-            invest_elements = [
-                model.element.label_full
-                for model in calculation.system_model.sub_models
-                if isinstance(model, InvestmentModel)
-            ]
-            if invest_elements:
-                logger.critical(
-                    f'Investments are not supported in Segmented Calculation! '
-                    f'Following elements Contain Investments: {invest_elements}'
-                )
-            calculation.solve(solver, save_results=False)
-
-        self._reset_start_values()
+        try:
+            for i in range(self.number_of_segments):
+                name_of_segment = f'Segment_{i + 1}'
+                if self.sub_calculations:
+                    self._transfer_start_values(name_of_segment)
+                time_indices = self._get_indices(i)
+                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+                # TODO: Add Before Values if available
+                self.sub_calculations.append(calculation)
+                calculation.do_modeling()
+                invest_elements = [
+                    model.element.label_full
+                    for model in calculation.system_model.sub_models
+                    if isinstance(model, InvestmentModel)
+                ]
+                if invest_elements:
+                    logger.critical(
+                        f'Investments are not supported in Segmented Calculation! '
+                        f'Following elements Contain Investments: {invest_elements}'
+                    )
+                calculation.solve(solver, save_results=False)
+        finally:
+            self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 3f3fe7ea073223e5b3a5777e0b41396c629709be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 26/41] fix: a repeated segmented calculation starts anew

---
 flixOpt/calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 98070cd..92d3c93 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -367,6 +367,7 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{"":#^80}')
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
+        self.sub_calculations = []
 
         try:
             for i in range(self.number_of_segments):
-- 
2.43.0


From 61061aebcf5bebef168ca467275521d6dac0c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 27/41] fix: a series with aggregation weight 0 keeps its
 weight

---
 flixOpt/aggregation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..219f0df 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -243,9 +243,8 @@ class TimeSeriesCollection:
         group_size = dict(Counter(groups))
         self.group_weights = {group: 1 / size for group, size in group_size.items()}
         for time_series in self.time_series_list:
-            time_series.aggregation_weight = self.group_weights.get(
-                time_series.aggregation_group, time_series.aggregation_weight or 1
-            )
+            weight = 1 if time_series.aggregation_weight is None else time_series.aggregation_weight
+            time_series.aggregation_weight = self.group_weights.get(time_series.aggregation_group, weight)
 
     def _unique_labels(self):
         """Makes sure every label of the TimeSeries in time_series_list is unique"""
-- 
2.43.0


From 55f1d1019441342d9c79ec5a2a485c10f155acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 28/41] fix: an empty list of components to clusterize ties no
 component

---
 flixOpt/aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 219f0df..004d8d4 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -357,7 +357,7 @@ class AggregationModel(ElementModel):
         self.components_to_clusterize = components_to_clusterize
 
     def do_modeling(self, system_model: SystemModel):
-        if not self.components_to_clusterize:
+        if self.components_to_clusterize is None:
             components = self.flow_system.components.values()
         else:
             components = [component for component in self.components_to_clusterize]
-- 
2.43.0


From f7093c7e6a09ad252ab6fc133a3e26b6237af797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 29/41] fix: storages with charge state limits varying over
 time can be aggregated

---
 flixOpt/aggregation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 004d8d4..d2bde59 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -226,8 +226,10 @@ class TimeSeriesCollection:
         self.weights: Dict[str, float] = {
             time_series.label: time_series.aggregation_weight for time_series in self.time_series_list
         }
+        # the value at the end of the last time step does not belong to any period
         self.data: Dict[str, np.ndarray] = {
-            time_series.label: time_series.active_data for time_series in self.time_series_list
+            time_series.label: time_series.active_data[:-1] if time_series.with_end else time_series.active_data
+            for time_series in self.time_series_list
         }
 
         if np.all(np.isclose(list(self.weights.values()), 1, atol=1e-6)):
@@ -255,7 +257,10 @@ class TimeSeriesCollection:
     def insert_data(self, data: Dict[str, np.ndarray]):
         for time_series in self.time_series_list:
             if time_series.label in data:
-                time_series.aggregated_data = data[time_series.label]
+                aggregated_data = data[time_series.label]
+                if time_series.with_end:
+                    aggregated_data = np.append(aggregated_data, time_series.active_data[-1])
+                time_series.aggregated_data = aggregated_data
                 logger.debug(f'Inserted data for {time_series.label}')
 
     def description(self) -> str:
-- 
2.43.0


From f10ce25e326ed8b17e14321964b6ffab7c5b1684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 30/41] fix: aggregation without equal periods can be combined
 with free binary variables

---
 flixOpt/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2bde59..affe984 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -368,6 +368,8 @@ class AggregationModel(ElementModel):
             components = [component for component in self.components_to_clusterize]
 
         indices = self.aggregation_data.get_equation_indices(skip_first_index_of_period=True)
+        if len(indices[0]) == 0:
+            return  # No two periods are equal: Nothing to equate
 
         for component in components:
             if isinstance(component, Storage) and not self.aggregation_parameters.fix_storage_flows:
-- 
2.43.0


From 8c082593df5f9358a7d151683c9e551bc99574d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 31/41] fix: variables with a single value can be summed up
 into a share

An aggregation with exactly one pair of equal steps and a penalty for deviations (or a bus
with excess in a system with one time step) failed with an AssertionError.
---
 flixOpt/features.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 3b3fcbf..b8dc5a9 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -825,9 +825,6 @@ class SingleShareModel(ElementModel):
 
     def __init__(self, element: Element, name: str, variable: Optional[Variable], factor: Numeric, share_as_sum: bool):
         super().__init__(element, name)
-        if variable is not None:
-            assert not (variable.length == 1 and share_as_sum), 'A Variable with the length 1 cannot be summed up!'
-
         if (
             share_as_sum
             or (variable is not None and variable.length == 1)
-- 
2.43.0


From 3de47a3c5c664fb43b931eff2fd3fb5b245d7263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 32/41] fix: results of time series in whole days can be saved

---
 flixOpt/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index b410489..94a7f51 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -7,7 +7,7 @@ import inspect
 import json
 import logging
 import pathlib
-from datetime import datetime
+from datetime import date
 from io import StringIO
 from typing import TYPE_CHECKING, Any, Dict, List, Literal, Optional, Union
 
@@ -611,7 +611,7 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
 
     elif isinstance(data, (int, float, str, bool, type(None))):
         return data
-    elif isinstance(data, datetime):
+    elif isinstance(data, date):  # Includes datetime. Arrays of whole days contain dates
         return data.isoformat()
 
     elif isinstance(data, (tuple, set)):
-- 
2.43.0


From 880152ee8c6e678ba8ae9ec0af771a862ebc93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 33/41] fix: numpy booleans in the inputs can be saved

---
 flixOpt/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 94a7f51..b62382e 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -608,6 +608,8 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
         return int(data)
     elif isinstance(data, np.floating):
         return float(data)
+    elif isinstance(data, np.bool_):
+        return bool(data)
 
     elif isinstance(data, (int, float, str, bool, type(None))):
         return data
-- 
2.43.0


From ebd2c9f58ca4dc1050600c24dcc9359b90b1a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 34/41] fix: results of segmented calculations can be loaded
 with every bus

---
 flixOpt/results.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index d88ea6c..7123f8a 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -92,25 +92,25 @@ class CalculationResults:
             self.component_results[res.label] = res
 
     def _construct_effect_results(self):
-        effect_results = self.all_results['Effects']
+        effect_results = self.all_results.get('Effects', {})
         effect_infos = self.all_data['Effects']
         effect_infos['penalty'] = {'label': 'Penalty'}
         if not effect_results.keys() == effect_infos.keys():
             logger.warning(f'Missing Effect or mismatched keys: {effect_results.keys() ^ effect_infos.keys()}')
 
-        for key in effect_results.keys():
+        for key in effect_infos.keys():  # Elements without any combined results are missing in the results
             infos, results = effect_infos.get(key, {}), effect_results.get(key, {})
             res = EffectResults(infos, results)
             self.effect_results[res.label] = res
 
     def _construct_bus_results(self):
         """This has to be called after _construct_component_results(), as its using the Flows from the Components"""
-        bus_results = self.all_results['Buses']
+        bus_results = self.all_results.get('Buses', {})
         bus_infos = self.all_data['Buses']
         if not bus_results.keys() == bus_infos.keys():
             logger.warning(f'Missing Bus or mismatched keys: {bus_results.keys() ^ bus_infos.keys()}')
 
-        for bus_label in bus_results.keys():
+        for bus_label in bus_infos.keys():  # Elements without any combined results are missing in the results
             infos, results = bus_infos.get(bus_label, {}), bus_results.get(bus_label, {})
             inputs = [
                 flow
-- 
2.43.0


From 3d1f79c47c6b5dbc1ca658e7f1fe195f3c8daf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 35/41] fix: a second bus with the label of another element is
 rejected

---
 flixOpt/flow_system.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index fcb93a0..cbdedf8 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -84,6 +84,7 @@ class FlowSystem:
         for new_component in new_components:
             logger.info(f'Registered new Component: {new_component.label}')
             self._check_if_element_is_unique(new_component)  # check if already exists:
+            self._check_if_buses_are_unique(new_component)
             new_component.register_component_in_flows()  # Komponente in Flow registrieren
             new_component.register_flows_in_bus()  # Flows in Bus registrieren:
             self.components[new_component.label] = new_component  # Add to existing components
@@ -235,6 +236,20 @@ class FlowSystem:
         if element.label_full in self.all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
 
+    def _check_if_buses_are_unique(self, component: Component) -> None:
+        """
+        checks if the label of a Bus connected to the component is already used by another element
+
+        Parameters
+        ----------
+        component : Component
+            new component to check
+        """
+        elements = {**self.all_elements, component.label_full: component}
+        for flow in component.inputs + component.outputs:
+            if elements.setdefault(flow.bus.label_full, flow.bus) is not flow.bus:
+                raise Exception(f'Label of Bus {flow.bus.label} already used in another element!')
+
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.float64]:
-- 
2.43.0


From 1001a9f425c6a4993ace8563c230aeef49a54b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 36/41] fix: the label of the penalty can not be used for an
 effect

---
 flixOpt/effects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 8d32c24..8cf6944 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -283,6 +283,8 @@ class EffectCollection:
             raise Exception(f'Effect already added! ({effect.label=})')
         if effect.label in self.effects:
             raise Exception(f'Effect with label "{effect.label=}" already added!')
+        if effect.label.lower() == 'penalty':
+            raise Exception(f'The label "{effect.label}" is reserved for the penalty!')
         self.effects[effect.label] = effect
 
     @property
-- 
2.43.0


From 92827311bef849e5a22fbbcd25fc3c02f8373196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 37/41] fix: modeling leaves the parameters of the flows as the
 user set them

---
 flixOpt/components.py | 5 +++++
 flixOpt/elements.py   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 35272a3..ebfd919 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -328,6 +328,9 @@ class TransmissionModel(ComponentModel):
 
     def do_modeling(self, system_model: SystemModel):
         """Initiates all FlowModels"""
+        flows = self.element.inputs + self.element.outputs
+        original_parameters = {flow: (flow.on_off_parameters, flow.size) for flow in flows}
+
         # Force On Variable if absolute losses are present
         if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.active_data != 0):
             for flow in self.element.inputs + self.element.outputs:
@@ -342,6 +345,8 @@ class TransmissionModel(ComponentModel):
                 self.element.in2.size = InvestParameters(maximum_size=self.element.in1.size.maximum_size)
 
         super().do_modeling(system_model)
+        for flow, (on_off_parameters, size) in original_parameters.items():
+            flow.on_off_parameters, flow.size = on_off_parameters, size
 
         # first direction
         self.create_transmission_equation('direction_1', self.element.in1, self.element.out1)
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index a54513a..b6d2069 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -467,6 +467,7 @@ class ComponentModel(ElementModel):
     def do_modeling(self, system_model: SystemModel):
         """Initiates all FlowModels"""
         all_flows = self.element.inputs + self.element.outputs
+        original_on_off_parameters = {flow: flow.on_off_parameters for flow in all_flows}
         if self.element.on_off_parameters:
             for flow in all_flows:
                 if flow.on_off_parameters is None:
@@ -480,6 +481,8 @@ class ComponentModel(ElementModel):
         self.sub_models.extend([flow.create_model() for flow in all_flows])
         for sub_model in self.sub_models:
             sub_model.do_modeling(system_model)
+        for flow, on_off_parameters in original_on_off_parameters.items():
+            flow.on_off_parameters = on_off_parameters
 
         if self.element.on_off_parameters:
             flow_rates: List[VariableTS] = [flow.model.flow_rate for flow in all_flows]
-- 
2.43.0


From a810d70623b96ee5b371f6abd3a7e822133ca511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 38/41] fix: the main results of a calculation are its own,
 whatever is modeled afterwards

---
 flixOpt/structure.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index b62382e..67db807 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -121,27 +121,21 @@ class SystemModel(MathModel):
     def description_of_variables(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_variables(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_variables(structured) for model in self.component_models
             },
-            'Buses': {
-                label: bus.model.description_of_variables(structured) for label, bus in self.flow_system.buses.items()
-            },
-            'Effects': self.flow_system.effect_collection.model.description_of_variables(structured),
+            'Buses': {model.element.label: model.description_of_variables(structured) for model in self.bus_models},
+            'Effects': self.effect_collection_model.description_of_variables(structured),
             'Others': {model.element.label: model.description_of_variables(structured) for model in self.other_models},
         }
 
     def description_of_constraints(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_constraints(structured)
-                for label, comp in self.flow_system.components.items()
-            },
-            'Buses': {
-                label: bus.model.description_of_constraints(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.component_models
             },
+            'Buses': {model.element.label: model.description_of_constraints(structured) for model in self.bus_models},
             'Objective': self.objective.description(),
-            'Effects': self.flow_system.effect_collection.model.description_of_constraints(structured),
+            'Effects': self.effect_collection_model.description_of_constraints(structured),
             'Others': {
                 model.element.label: model.description_of_constraints(structured) for model in self.other_models
             },
@@ -163,21 +157,21 @@ class SystemModel(MathModel):
         main_results = {}
         effect_results = {}
         main_results['Effects'] = effect_results
-        for effect in self.flow_system.effect_collection.effects.values():
+        for effect, model in self.effect_collection_model._effect_models.items():
             effect_results[f'{effect.label} [{effect.unit}]'] = {
-                'operation': float(effect.model.operation.sum.result),
-                'invest': float(effect.model.invest.sum.result),
-                'sum': float(effect.model.all.sum.result),
+                'operation': float(model.operation.sum.result),
+                'invest': float(model.invest.sum.result),
+                'sum': float(model.all.sum.result),
             }
         main_results['penalty'] = float(self.effect_collection_model.penalty.sum.result)
         main_results['Objective'] = self.result_of_objective
         main_results['lower bound'] = self.solver.best_bound
         buses_with_excess = []
         main_results['buses with excess'] = buses_with_excess
-        for bus in self.flow_system.buses.values():
-            if bus.with_excess:
-                if np.sum(bus.model.excess_input.result) > 1e-3 or np.sum(bus.model.excess_output.result) > 1e-3:
-                    buses_with_excess.append(bus.label)
+        for model in self.bus_models:
+            if model.element.with_excess:
+                if np.sum(model.excess_input.result) > 1e-3 or np.sum(model.excess_output.result) > 1e-3:
+                    buses_with_excess.append(model.element.label)
 
         invest_decisions = {'invested': {}, 'not invested': {}}
         main_results['Invest-Decisions'] = invest_decisions
-- 
2.43.0


From f0f75b96dc8b534c1190d0b21c243070bbdf6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 39/41] fix: the solver infos of a calculation stay its own if
 the solver is used again

---
 flixOpt/math_modeling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index c5bc14e..b875cfe 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -6,6 +6,7 @@ and translate it into a ModelingLanguage like Pyomo, and the solve it through a
 Multiple solvers are supported.
 """
 
+import copy
 import logging
 import re
 import timeit
@@ -523,6 +524,7 @@ class MathModel:
         for variable in self.variables:
             variable.reset_result()  # altes Ergebnis löschen (falls vorhanden)
         self.model.solve(self, solver)
+        self.solver = copy.copy(solver)  # A solver can be used several times. It only knows its latest results
         self.duration['Solving'] = round(timeit.default_timer() - t_start, 2)
 
     def results(self) -> Dict[str, Numeric]:
-- 
2.43.0


From 5b0ff9e65988e3bcde6fd4dc1fe30ae824ec3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 40/41] fix: the results of a calculation that is solved again
 are the new ones

---
 flixOpt/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 92d3c93..c752d75 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -165,6 +165,7 @@ class FullCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # Results of an earlier solve are outdated
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
@@ -295,6 +296,7 @@ class AggregatedCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # Results of an earlier solve are outdated
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
-- 
2.43.0


From d68f9bbd82ca4071ff9deb152b613ef765c61edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 41/41] fix: parameters can be shared by several elements and
 used again in another system

---
 flixOpt/flow_system.py | 3 ++-
 flixOpt/structure.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index cbdedf8..3cd60b4 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -314,7 +314,8 @@ class FlowSystem:
 
     @property
     def all_time_series(self) -> List[TimeSeries]:
-        return [ts for element in self.all_elements.values() for ts in element.used_time_series]
+        # Elements with shared parameters share their TimeSeries
+        return list({id(ts): ts for element in self.all_elements.values() for ts in element.used_time_series}.values())
 
 
 def create_datetime_array(
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 67db807..5a5c225 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -503,6 +503,8 @@ def _create_time_series(
         return None
     elif isinstance(data, TimeSeries):
         data.clear_indices_and_aggregated_data()
+        if not any(time_series is data for time_series in element.used_time_series):  # Parameters can be shared
+            element.used_time_series.append(data)
         return data
     else:
         time_series = TimeSeries(label=f'{element.label_full}__{label}', data=data, with_end=with_end)
-- 
2.43.0

