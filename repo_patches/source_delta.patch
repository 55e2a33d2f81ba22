From 45561338c781b5806c8f64978736423012953b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:57 +0000
Subject: [PATCH 01/15] fix: ScalingWrapper no longer scales the wrapped
 component's own output in place

---
 sympl/_core/wrappers.py | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 63bb902..232f4c9 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -3,6 +3,20 @@ from .._core.base_components import (
 )
 
 
+def get_scaled_quantities(quantities, scale_factors):
+    """
+    Returns a new dictionary of quantities where those with scale factors have
+    been scaled. The given quantities may be owned (and later returned again) by
+    the component which computed them, so neither the dictionary nor its values
+    are modified.
+    """
+    return_dict = dict(quantities)
+    for name, scale_factor in scale_factors.items():
+        return_dict[name] = quantities[name] * float(scale_factor)
+        return_dict[name].attrs = quantities[name].attrs
+    return return_dict
+
+
 class ScalingWrapper(object):
     """
     Wraps any component and scales either inputs, outputs or tendencies
@@ -151,38 +165,24 @@ class ScalingWrapper(object):
             if timestep is None:
                 raise TypeError('Must give timestep to call Stepper.')
             diagnostics, new_state = self._component(scaled_state, timestep)
-            for name in self._output_scale_factors.keys():
-                scale_factor = self._output_scale_factors[name]
-                new_state[name] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            new_state = get_scaled_quantities(new_state, self._output_scale_factors)
+            diagnostics = get_scaled_quantities(diagnostics, self._diagnostic_scale_factors)
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
             tendencies, diagnostics = self._component(scaled_state)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = get_scaled_quantities(tendencies, self._tendency_scale_factors)
+            diagnostics = get_scaled_quantities(diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, ImplicitTendencyComponent):
             if timestep is None:
                 raise TypeError('Must give timestep to call ImplicitTendencyComponent.')
             tendencies, diagnostics = self._component(scaled_state, timestep)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = get_scaled_quantities(tendencies, self._tendency_scale_factors)
+            diagnostics = get_scaled_quantities(diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, DiagnosticComponent):
             diagnostics = self._component(scaled_state)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            diagnostics = get_scaled_quantities(diagnostics, self._diagnostic_scale_factors)
             return diagnostics
         else:  # Should never reach this
             raise RuntimeError(
-- 
2.43.0


From cf01571fc33e084f2877666ebc1ea84ff493bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:15 +0000
Subject: [PATCH 02/15] fix: datetime raises ValueError for an unknown calendar
 instead of returning None

---
 sympl/_core/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/time.py b/sympl/_core/time.py
index f0401d8..d84c6ac 100644
--- a/sympl/_core/time.py
+++ b/sympl/_core/time.py
@@ -65,6 +65,8 @@ def datetime(
         return ct.DatetimeJulian(**kwargs)
     elif calendar.lower() == 'gregorian':
         return ct.DatetimeGregorian(**kwargs)
+    else:
+        raise ValueError("Unknown calendar '{}'".format(calendar))
 
 
 __all__ = (datetime, timedelta)
-- 
2.43.0


From f2538dc88858e09999099189a1f4267d503f0950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:21 +0000
Subject: [PATCH 03/15] fix: register_tracer registers a name once, and not at
 all if a component conflicts

---
 sympl/_core/tracers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index ef67982..67ab39c 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -38,10 +38,11 @@ def register_tracer(name, units):
                 name, _tracer_unit_dict[name], units
             )
         )
-    _tracer_unit_dict[name] = units
-    _tracer_names.append(name)
     for packer in _packers:
         packer.ensure_tracer_not_in_outputs(name, units)
+    _tracer_unit_dict[name] = units
+    if name not in _tracer_names:
+        _tracer_names.append(name)
 
 
 def get_tracer_unit_dict():
-- 
2.43.0


From a48fa1390865faea04e19198dc1acf58092cbcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:28 +0000
Subject: [PATCH 04/15] fix: count a tracer both registered and prepended once
 when sizing tracer arrays

---
 sympl/_core/init_np_arrays.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/init_np_arrays.py b/sympl/_core/init_np_arrays.py
index c6298a2..caacf2a 100644
--- a/sympl/_core/init_np_arrays.py
+++ b/sympl/_core/init_np_arrays.py
@@ -42,7 +42,9 @@ def initialize_numpy_arrays_with_properties(
         output_properties, input_properties, [])
     out_dict = {}
     tracer_names = list(get_tracer_names())
-    tracer_names.extend(entry[0] for entry in prepend_tracers)
+    for entry in prepend_tracers:
+        if entry[0] not in tracer_names:
+            tracer_names.append(entry[0])
     for name, out_dims in dims_from_out_properties.items():
         if tracer_dims is None or name not in tracer_names:
             out_shape = []
-- 
2.43.0


From 5fc88dbac55fe915a65749782318b20c3fd0240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:44 +0000
Subject: [PATCH 05/15] fix: list names, not objects, in __all__ so that 'from
 sympl import *' works

---
 sympl/__init__.py             | 112 +++++++++++++++++-----------------
 sympl/_components/__init__.py |   8 +--
 sympl/_core/time.py           |   2 +-
 3 files changed, 61 insertions(+), 61 deletions(-)

diff --git a/sympl/__init__.py b/sympl/__init__.py
index d8a9a68..97e1d30 100644
--- a/sympl/__init__.py
+++ b/sympl/__init__.py
@@ -64,60 +64,60 @@ from ._core.wrappers import ScalingWrapper, UpdateFrequencyWrapper
 
 __version__ = "0.5.1"
 __all__ = (
-    TendencyComponent,
-    DiagnosticComponent,
-    Stepper,
-    Monitor,
-    TendencyComponentComposite,
-    ImplicitTendencyComponentComposite,
-    DiagnosticComponentComposite,
-    MonitorComposite,
-    ImplicitTendencyComponent,
-    TendencyStepper,
-    Leapfrog,
-    AdamsBashforth,
-    SSPRungeKutta,
-    InvalidStateError,
-    SharedKeyError,
-    DependencyError,
-    InvalidPropertyDictError,
-    ComponentExtraOutputError,
-    ComponentMissingOutputError,
-    units_are_same,
-    units_are_compatible,
-    is_valid_unit,
-    DataArray,
-    get_constant,
-    set_constant,
-    set_condensible_name,
-    reset_constants,
-    get_constants_string,
-    TimeDifferencingWrapper,
-    ensure_no_shared_keys,
-    set_backend,
-    get_backend,
-    StateBackend,
-    DataArrayBackend,
-    get_numpy_array,
-    jit,
-    register_tracer,
-    get_tracer_unit_dict,
-    get_tracer_input_properties,
-    get_tracer_names,
-    restore_dimensions,
-    get_numpy_arrays_with_properties,
-    restore_data_arrays_with_properties,
-    initialize_numpy_arrays_with_properties,
-    get_component_aliases,
-    combine_component_properties,
-    PlotFunctionMonitor,
-    NetCDFMonitor,
-    RestartMonitor,
-    ConstantTendencyComponent,
-    ConstantDiagnosticComponent,
-    RelaxationTendencyComponent,
-    UpdateFrequencyWrapper,
-    ScalingWrapper,
-    datetime,
-    timedelta,
+    "TendencyComponent",
+    "DiagnosticComponent",
+    "Stepper",
+    "Monitor",
+    "TendencyComponentComposite",
+    "ImplicitTendencyComponentComposite",
+    "DiagnosticComponentComposite",
+    "MonitorComposite",
+    "ImplicitTendencyComponent",
+    "TendencyStepper",
+    "Leapfrog",
+    "AdamsBashforth",
+    "SSPRungeKutta",
+    "InvalidStateError",
+    "SharedKeyError",
+    "DependencyError",
+    "InvalidPropertyDictError",
+    "ComponentExtraOutputError",
+    "ComponentMissingOutputError",
+    "units_are_same",
+    "units_are_compatible",
+    "is_valid_unit",
+    "DataArray",
+    "get_constant",
+    "set_constant",
+    "set_condensible_name",
+    "reset_constants",
+    "get_constants_string",
+    "TimeDifferencingWrapper",
+    "ensure_no_shared_keys",
+    "set_backend",
+    "get_backend",
+    "StateBackend",
+    "DataArrayBackend",
+    "get_numpy_array",
+    "jit",
+    "register_tracer",
+    "get_tracer_unit_dict",
+    "get_tracer_input_properties",
+    "get_tracer_names",
+    "restore_dimensions",
+    "get_numpy_arrays_with_properties",
+    "restore_data_arrays_with_properties",
+    "initialize_numpy_arrays_with_properties",
+    "get_component_aliases",
+    "combine_component_properties",
+    "PlotFunctionMonitor",
+    "NetCDFMonitor",
+    "RestartMonitor",
+    "ConstantTendencyComponent",
+    "ConstantDiagnosticComponent",
+    "RelaxationTendencyComponent",
+    "UpdateFrequencyWrapper",
+    "ScalingWrapper",
+    "datetime",
+    "timedelta",
 )
diff --git a/sympl/_components/__init__.py b/sympl/_components/__init__.py
index ba29856..6ccedb6 100644
--- a/sympl/_components/__init__.py
+++ b/sympl/_components/__init__.py
@@ -5,7 +5,7 @@ from .basic import (
     TimeDifferencingWrapper)
 
 __all__ = (
-    PlotFunctionMonitor,
-    NetCDFMonitor, RestartMonitor,
-    ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent,
-    TimeDifferencingWrapper)
+    'PlotFunctionMonitor',
+    'NetCDFMonitor', 'RestartMonitor',
+    'ConstantTendencyComponent', 'ConstantDiagnosticComponent', 'RelaxationTendencyComponent',
+    'TimeDifferencingWrapper')
diff --git a/sympl/_core/time.py b/sympl/_core/time.py
index d84c6ac..9dabe23 100644
--- a/sympl/_core/time.py
+++ b/sympl/_core/time.py
@@ -69,4 +69,4 @@ def datetime(
         raise ValueError("Unknown calendar '{}'".format(calendar))
 
 
-__all__ = (datetime, timedelta)
+__all__ = ('datetime', 'timedelta')
-- 
2.43.0


From 5fd244da026970d85ec3d04cf171454d0238d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:10 +0000
Subject: [PATCH 06/15] fix: RestartMonitor replaces the restart file
 atomically

---
 sympl/_components/netcdf.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 0f0fb7e..8f240c0 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -231,11 +231,8 @@ class RestartMonitor(Monitor):
         netcdf_monitor.store(state)
         netcdf_monitor.write()
 
-        if os.path.isfile(self._filename):
-            os.rename(self._filename, self._filename + '.old')
-        os.rename(new_filename, self._filename)
-        if os.path.isfile(self._filename + '.old'):
-            os.remove(self._filename + '.old')
+        # atomic, so that there is a complete restart file at any moment
+        os.replace(new_filename, self._filename)
 
     def load(self):
         """
-- 
2.43.0


From aa00ee75f883c03d53426b95b2f219e531be3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:16 +0000
Subject: [PATCH 07/15] fix: combine_dims checks named dims against the
 specification without wildcard, in a fixed order

---
 sympl/_core/combine_properties.py | 35 ++++++++++---------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index 623a3cf..5db8550 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -24,33 +24,20 @@ def combine_dims(dims1, dims2):
     """
     if dims1 == dims2:
         return dims1
-    dims_out = []
-    dims1 = set(dims1)
-    dims2 = set(dims2)
     dims1_wildcard = '*' in dims1
-    dims1.discard('*')
     dims2_wildcard = '*' in dims2
-    dims2.discard('*')
-    unmatched_dims = set(dims1).union(dims2).difference(dims_out)
-    shared_dims = set(dims2).intersection(dims2)
+    named_dims1 = [dim for dim in dims1 if dim != '*']
+    named_dims2 = [dim for dim in dims2 if dim != '*']
+    # a specification without wildcard must contain every dim named in the other
+    if ((not dims1_wildcard and not set(named_dims2).issubset(named_dims1)) or
+            (not dims2_wildcard and not set(named_dims1).issubset(named_dims2))):
+        raise InvalidPropertyDictError(
+            'dims {} and {} are incompatible'.format(dims1, dims2))
+    dims_out = []
     if dims1_wildcard and dims2_wildcard:
-        dims_out.insert(0, '*')  # either dim can match anything
-        dims_out.extend(unmatched_dims)
-    elif not dims1_wildcard and not dims2_wildcard:
-        if shared_dims != set(dims1) or shared_dims != set(dims2):
-            raise InvalidPropertyDictError(
-                'dims {} and {} are incompatible'.format(dims1, dims2))
-        dims_out.extend(unmatched_dims)
-    elif dims1_wildcard:
-        if shared_dims != set(dims2):
-            raise InvalidPropertyDictError(
-                'dims {} and {} are incompatible'.format(dims1, dims2))
-        dims_out.extend(unmatched_dims)
-    elif dims2_wildcard:
-        if shared_dims != set(dims1):
-            raise InvalidPropertyDictError(
-                'dims {} and {} are incompatible'.format(dims1, dims2))
-        dims_out.extend(unmatched_dims)
+        dims_out.append('*')  # either dim can match anything
+    dims_out.extend(named_dims1)
+    dims_out.extend(dim for dim in named_dims2 if dim not in named_dims1)
     return dims_out
 
 
-- 
2.43.0


From 8d27d1656603d4fa8ce8c044a30845677fa963fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 08/15] fix: SSPRungeKutta passes on quantities without
 tendencies unchanged

---
 sympl/_components/timesteppers.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index d0f7328..386045e 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -57,9 +57,9 @@ class SSPRungeKutta(TendencyStepper):
     def _step_3_stages(self, state, timestep):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         _, state_1_5 = self._euler_stepper(state_1, timestep)
-        state_2 = add(multiply(0.75, state), multiply(0.25, state_1_5))
+        state_2 = get_weighted_sum(0.75, state, 0.25, state_1_5)
         _, state_2_5 = self._euler_stepper(state_2, timestep)
-        out_state = add(multiply(1./3, state), multiply(2./3, state_2_5))
+        out_state = get_weighted_sum(1./3, state, 2./3, state_2_5)
         return diagnostics, out_state
 
     def _step_2_stages(self, state, timestep):
@@ -67,7 +67,7 @@ class SSPRungeKutta(TendencyStepper):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         assert state_1 is not None
         _, state_2 = self._euler_stepper(state_1, timestep)
-        out_state = multiply(0.5, add(state, state_2))
+        out_state = get_weighted_sum(0.5, state, 0.5, state_2)
         return diagnostics, out_state
 
 
@@ -160,6 +160,18 @@ class AdamsBashforth(TendencyStepper):
                 'timestep must be constant for Adams-Bashforth time stepping')
 
 
+def get_weighted_sum(weight_1, state_1, weight_2, state_2):
+    """
+    Returns the weighted sum of two states. A quantity which is the same object
+    in both states was not stepped, and is passed on as it is.
+    """
+    out_state = add(multiply(weight_1, state_1), multiply(weight_2, state_2))
+    for name in state_1.keys():
+        if state_2[name] is state_1[name]:
+            out_state[name] = state_1[name]
+    return out_state
+
+
 def convert_tendencies_units_for_state(tendencies, state):
     """
     Converts the units of any quantities with unit informaton in the
-- 
2.43.0


From 47a65bdfed100c7feda25f3299f3aaa08653e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 09/15] fix: tendencies_in_diagnostics adds properties to the
 instance, not to its class

---
 sympl/_core/base_components.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 2583fbd..f3f6257 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -26,6 +26,17 @@ def apply_scale_factors(array_state, scale_factors):
         array_state[key] *= factor
 
 
+def ensure_instance_owns_properties(component, *names):
+    """
+    Property dictionaries defined on a class are shared by its instances. Gives
+    the component instance its own copies, so that it may add entries to them.
+    """
+    for name in names:
+        if (name not in component.__dict__ and
+                not isinstance(getattr(type(component), name, None), property)):
+            setattr(component, name, getattr(component, name).copy())
+
+
 def is_component_class(cls):
     return any(issubclass(cls, cls2) for cls2 in (Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent))
 
@@ -516,6 +527,8 @@ class Stepper(object):
         super(Stepper, self).__init__()
 
     def _insert_tendency_properties(self):
+        ensure_instance_owns_properties(
+            self, 'diagnostic_properties', 'input_properties')
         added_names = []
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
@@ -774,6 +787,7 @@ class TendencyComponent(object):
         return self._tendencies_in_diagnostics
 
     def _insert_tendency_properties(self):
+        ensure_instance_owns_properties(self, 'diagnostic_properties')
         added_names = []
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
@@ -997,6 +1011,7 @@ class ImplicitTendencyComponent(object):
         return self._tendencies_in_diagnostics
 
     def _insert_tendency_properties(self):
+        ensure_instance_owns_properties(self, 'diagnostic_properties')
         added_names = []
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
-- 
2.43.0


From 614707c78c5f9b1c5087fd3b5bfe6d43bfc7fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:08 +0000
Subject: [PATCH 10/15] fix: Stepper tendencies in diagnostics support
 quantities with an alias

---
 sympl/_core/base_components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index f3f6257..fdb48c1 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -1,6 +1,7 @@
 import abc
 from .get_np_arrays import get_numpy_arrays_with_properties
-from .restore_dataarray import restore_data_arrays_with_properties
+from .restore_dataarray import (
+    get_alias_or_name, restore_data_arrays_with_properties)
 from .time import timedelta
 from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
@@ -650,8 +651,11 @@ class Stepper(object):
             self, raw_state, raw_new_state, timestep, raw_diagnostics):
         for name in self.output_properties.keys():
             tendency_name = self._get_tendency_name(name)
+            new_value = raw_new_state[get_alias_or_name(
+                name, self.output_properties, self.input_properties)]
+            old_value = raw_state[self.input_properties[name].get('alias', name)]
             raw_diagnostics[tendency_name] = (
-                (raw_new_state[name] - raw_state[name]) /
+                (new_value - old_value) /
                 timestep.total_seconds() * self.time_unit_timedelta.total_seconds())
 
     @abc.abstractmethod
-- 
2.43.0


From 0c43a8cb37ffb76396a9ee7091b85f9340587604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 11/15] fix: do not modify the dictionaries a component's
 array_call returned

---
 sympl/_core/base_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index fdb48c1..8ecfedc 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -630,6 +630,7 @@ class Stepper(object):
         raw_state['time'] = state['time']
         raw_diagnostics, raw_new_state = self.array_call(raw_state, timestep)
         if self.uses_tracers:
+            raw_new_state = raw_new_state.copy()
             new_state = self._tracer_packer.unpack(
                 raw_new_state.pop('tracers'), state)
         else:
@@ -637,6 +638,7 @@ class Stepper(object):
         self._diagnostic_checker.check_diagnostics(raw_diagnostics)
         self._output_checker.check_outputs(raw_new_state)
         if self.tendencies_in_diagnostics:
+            raw_diagnostics = raw_diagnostics.copy()
             self._insert_tendencies_to_diagnostics(
                 raw_state, raw_new_state, timestep, raw_diagnostics)
         diagnostics = restore_data_arrays_with_properties(
@@ -860,6 +862,7 @@ class TendencyComponent(object):
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state)
         if self.uses_tracers:
+            raw_tendencies = raw_tendencies.copy()
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
                 multiply_unit=self.tracer_tendency_time_unit)
@@ -1086,6 +1089,7 @@ class ImplicitTendencyComponent(object):
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state, timestep)
         if self.uses_tracers:
+            raw_tendencies = raw_tendencies.copy()
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
                 multiply_unit=self.tracer_tendency_time_unit)
-- 
2.43.0


From 4c060cf837113d7d921709580813b74ba27129e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:43 +0000
Subject: [PATCH 12/15] fix: Accept equal units spelled differently in
 tendencies_in_diagnostics

The time steppers spell their output units in base units ('meter'), so that
asking them for tendencies failed for any quantity declared in 'm'.
---
 sympl/_core/base_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 8ecfedc..478cd4a 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -7,7 +7,7 @@ from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
     ComponentMissingOutputError, InvalidStateError)
 from six import add_metaclass
-from .units import units_are_compatible
+from .units import units_are_compatible, units_are_same
 from .tracers import TracerPacker
 try:
     from inspect import getfullargspec as getargspec
@@ -559,7 +559,8 @@ class Stepper(object):
                         self.output_properties[name]['dims']
                     )
                 )
-            elif self.input_properties[name]['units'] != self.output_properties[name]['units']:
+            elif not units_are_same(
+                    self.input_properties[name]['units'], self.output_properties[name]['units']):
                 raise InvalidPropertyDictError(
                     'Can only calculate tendencies when input and output values'
                     ' have the same units, but units for {} are '
-- 
2.43.0


From b060058f2a76123d883e1a28244031c65b06d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 13/15] fix: specific enthalpy of water vapor is 2.5e6 J kg^-1,
 was given in kJ kg^-1

---
 sympl/_core/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/constants.py b/sympl/_core/constants.py
index 15d2ae4..066c12a 100644
--- a/sympl/_core/constants.py
+++ b/sympl/_core/constants.py
@@ -98,7 +98,7 @@ default_constants = ConstantDict({
     'gravitational_acceleration': get_backend().get_container_type()(9.80665, attrs={'units': 'm s^-2'}),
     'heat_capacity_of_dry_air_at_constant_pressure': get_backend().get_container_type()(1004.64, attrs={'units': 'J kg^-1 K^-1'}),
     'heat_capacity_of_water_vapor_at_constant_pressure': get_backend().get_container_type()(1846.0, attrs={'units': 'J kg^-1 K^-1'}),
-    'specific_enthalpy_of_water_vapor': get_backend().get_container_type()(2500.0, attrs={'units': 'J kg^-1'}),
+    'specific_enthalpy_of_water_vapor': get_backend().get_container_type()(2.5e6, attrs={'units': 'J kg^-1'}),
     'heat_capacity_of_liquid_water': get_backend().get_container_type()(4185.5, attrs={'units': 'J kg^-1 K^-1'}),
     'freezing_temperature_of_liquid_water': get_backend().get_container_type()(273.0, attrs={'units': 'K'}),
     'thermal_conductivity_of_liquid_water': get_backend().get_container_type()(0.57, attrs={'units': 'W m^-1 K^-1'}),
-- 
2.43.0


From 92bab95af5a6b5f2dcbcb277e93a31f991089300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 14/15] fix: ready-made tendency components declare the
 tendencies they report as diagnostics

---
 sympl/_components/basic.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 0c627f4..dd2400b 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -72,13 +72,7 @@ class ConstantTendencyComponent(TendencyComponent):
 
     @property
     def diagnostic_properties(self):
-        return_dict = {}
-        for name, data_array in self.__diagnostics.items():
-            return_dict[name] = {
-                "dims": data_array.dims,
-                "units": data_array.attrs["units"],
-            }
-        return return_dict
+        return self.__diagnostic_properties
 
     def __init__(self, tendencies, diagnostics=None, **kwargs):
         """
@@ -122,6 +116,12 @@ class ConstantTendencyComponent(TendencyComponent):
             self.__diagnostics = diagnostics.copy()
         else:
             self.__diagnostics = {}
+        self.__diagnostic_properties = {}
+        for name, data_array in self.__diagnostics.items():
+            self.__diagnostic_properties[name] = {
+                "dims": data_array.dims,
+                "units": data_array.attrs["units"],
+            }
         super(ConstantTendencyComponent, self).__init__(**kwargs)
 
     def array_call(self, state):
@@ -291,7 +291,7 @@ class RelaxationTendencyComponent(TendencyComponent):
 
     @property
     def diagnostic_properties(self):
-        return {}
+        return self._diagnostic_properties
 
     def __init__(self, quantity_name, units, **kwargs):
         """
@@ -323,6 +323,7 @@ class RelaxationTendencyComponent(TendencyComponent):
         """
         self._quantity_name = quantity_name
         self._units = units
+        self._diagnostic_properties = {}
         super(RelaxationTendencyComponent, self).__init__(**kwargs)
 
     def array_call(self, state):
-- 
2.43.0


From 3402dd8afe36a99a9bb11e390f3f8689b3c9d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:50 +0000
Subject: [PATCH 15/15] fix: multistep schemes combined past values in the
 units of past states

---
 sympl/_components/timesteppers.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 386045e..247c98b 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -127,8 +127,10 @@ class AdamsBashforth(TendencyStepper):
         self._ensure_constant_timestep(timestep)
         state = state.copy()
         tendencies, diagnostics = self.prognostic(state, timestep)
-        convert_tendencies_units_for_state(tendencies, state)
         self._tendencies_list.append(tendencies)
+        for past_tendencies in self._tendencies_list:
+            # units in the state may differ from those at past timesteps
+            convert_tendencies_units_for_state(past_tendencies, state)
         new_state = self._perform_step(state, timestep)
         copy_untouched_quantities(state, new_state)
         if len(self._tendencies_list) == self._order:
@@ -185,6 +187,16 @@ def convert_tendencies_units_for_state(tendencies, state):
             tendencies[quantity_name] = tendencies[quantity_name].to_units(desired_units)
 
 
+def convert_units_for_state(past_state, state, names):
+    """
+    Converts the named quantities of past_state to the units they have in the
+    state dictionary. This is done in-place.
+    """
+    for name in names:
+        if isinstance(state[name], get_backend().get_container_type()) and ('units' in state[name].attrs):
+            past_state[name] = past_state[name].to_units(state[name].attrs['units'])
+
+
 class Leapfrog(TendencyStepper):
     """A TendencyStepper using the Leapfrog scheme.
 
@@ -264,8 +276,10 @@ class Leapfrog(TendencyStepper):
         if self._old_state is None:
             new_state = step_forward_euler(state, tendencies, timestep)
         else:
+            old_state = self._old_state.copy()
+            convert_units_for_state(old_state, state, tendencies.keys())
             state, new_state = step_leapfrog(
-                self._old_state, state, tendencies, timestep,
+                old_state, state, tendencies, timestep,
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
         copy_untouched_quantities(state, new_state)
         self._old_state = state
-- 
2.43.0

