"""Required behaviour of the component base classes (analysed, never run)."""
from sympl import (
    Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent,
    get_numpy_arrays_with_properties, restore_data_arrays_with_properties,
    units_are_compatible, units_are_same, InvalidPropertyDictError, InvalidStateError,
    ComponentMissingOutputError, ComponentExtraOutputError)
from sympl._core.tracers import TracerPacker


# --- what a property dictionary must satisfy ---------------------------------
def require_dict(component, attribute):
    if not hasattr(component, attribute):
        raise InvalidPropertyDictError()
    if not isinstance(getattr(component, attribute), dict):
        raise InvalidPropertyDictError()


def require_distinct_aliases(properties):
    seen = set()
    for name in properties:
        if 'alias' in properties[name]:
            if properties[name]['alias'] in seen:
                raise InvalidPropertyDictError()
            seen.add(properties[name]['alias'])


def require_inputs(component):
    require_dict(component, 'input_properties')
    inputs = component.input_properties
    for name in inputs:
        if 'units' not in inputs[name] or 'dims' not in inputs[name]:
            raise InvalidPropertyDictError()
    require_distinct_aliases(inputs)


def require_outputs(component, attribute, per_second):
    require_dict(component, attribute)
    inputs = component.input_properties
    outputs = getattr(component, attribute)
    for name in outputs:
        if 'units' not in outputs[name]:
            raise InvalidPropertyDictError()
        if 'dims' not in outputs[name] and name not in inputs:
            raise InvalidPropertyDictError()
    require_distinct_aliases(outputs)
    for name in outputs:
        if name in inputs:
            units = inputs[name]['units']
            if per_second:
                units = 's^-1' if units == '' else units + ' s^-1'
            if not units_are_compatible(units, outputs[name]['units']):
                raise InvalidPropertyDictError()


def packer_of(component):
    if component.tracer_dims is None:
        raise ValueError()
    return TracerPacker(component, component.tracer_dims,
                        prepend_tracers=getattr(component, 'prepend_tracers', None))


# --- what a call must do -------------------------------------------------------
def require_state(inputs, state):
    for name in inputs:
        if name not in state:
            raise InvalidStateError()


def require_computed(raw, outputs, inputs, added):
    """Every declared quantity is there, under its name or an alias, and no other."""
    for name in outputs:
        if name not in raw and name not in added and not (
                ('alias' in outputs[name] and outputs[name]['alias'] in raw) or
                (name in inputs and 'alias' in inputs[name] and inputs[name]['alias'] in raw)):
            raise ComponentMissingOutputError()
    for key in raw:
        known = False
        for name in outputs:
            if key == name or \
                    ('alias' in outputs[name] and key == outputs[name]['alias']) or \
                    (name in inputs and 'alias' in inputs[name] and key == inputs[name]['alias']):
                known = True
        if not known:
            raise ComponentExtraOutputError()


def delivered(inputs, state):
    raw = dict(get_numpy_arrays_with_properties(state, inputs))
    raw['time'] = state['time']
    return raw


def without(dictionary, key):
    out = {}
    for k in dictionary:
        if k != key:
            out[k] = dictionary[k]
    return out


def merged(first, second):
    out = dict(first)
    for k in second:
        out[k] = second[k]
    return out


def label(component, name):
    return name if name else component.__class__.__name__


def tendency_diagnostics(component, name):
    """diagnostic properties once tendencies are put in diagnostics"""
    diagnostics = dict(component.diagnostic_properties)
    added = []
    for q in component.tendency_properties:
        declared = component.tendency_properties[q]
        diagnostics[q + '_tendency_from_' + label(component, name)] = {
            'units': declared['units'],
            'dims': declared['dims'] if 'dims' in declared else component.input_properties[q]['dims']}
        added.append(q + '_tendency_from_' + label(component, name))
    return diagnostics, added


def stepper_diagnostics(component, name):
    """input and diagnostic properties once tendencies are put in diagnostics"""
    diagnostics = dict(component.diagnostic_properties)
    inputs = dict(component.input_properties)
    added = []
    for q in component.output_properties:
        declared = component.output_properties[q]
        dims = declared['dims'] if 'dims' in declared else component.input_properties[q]['dims']
        diagnostics[q + '_tendency_from_' + label(component, name)] = {
            'units': 's^-1' if declared['units'] == '' else declared['units'] + ' s^-1',
            'dims': dims}
        added.append(q + '_tendency_from_' + label(component, name))
        if q not in component.input_properties:
            inputs[q] = {'dims': dims, 'units': declared['units']}
        elif component.input_properties[q]['dims'] != dims or \
                not units_are_same(component.input_properties[q]['units'], declared['units']):
            raise InvalidPropertyDictError()
    return inputs, diagnostics, added


# --- DiagnosticComponent ---------------------------------------------------------
def got_diagnostic_init(self: DiagnosticComponent):
    """C03 | at=sympl.DiagnosticComponent.__init__"""
    DiagnosticComponent.__init__(self)


def want_diagnostic_init(self: DiagnosticComponent):
    require_inputs(self)
    require_outputs(self, 'diagnostic_properties', False)


def got_diagnostic_call(self: DiagnosticComponent, state: 'map'):
    """C01 C02 C04 C23 C05:owned | at=sympl.DiagnosticComponent.__call__ calls=.array_call heap=*"""
    DiagnosticComponent.__init__(self)
    return DiagnosticComponent.__call__(self, state)


def want_diagnostic_call(self: DiagnosticComponent, state: 'map'):
    require_inputs(self)
    require_outputs(self, 'diagnostic_properties', False)
    require_state(self.input_properties, state)
    out = self.array_call(delivered(self.input_properties, state))
    require_computed(out, self.diagnostic_properties, self.input_properties, [])
    return restore_data_arrays_with_properties(
        out, self.diagnostic_properties, state, self.input_properties)


def got_diagnostic_uninitialised(self: DiagnosticComponent, state: 'map'):
    """C03 | at=sympl.DiagnosticComponent.__call__ calls=.array_call bare=self"""
    return DiagnosticComponent.__call__(self, state)


def want_diagnostic_uninitialised(self: DiagnosticComponent, state: 'map'):
    raise RuntimeError()


# --- TendencyComponent -------------------------------------------------------------
def got_tendency_init(self: TendencyComponent, flag: 'bool', name: 'str'):
    """C03 C25 | at=sympl.TendencyComponent.__init__"""
    TendencyComponent.__init__(self, tendencies_in_diagnostics=flag, name=name)
    return self.diagnostic_properties, self.name, self.tendencies_in_diagnostics


def want_tendency_init(self: TendencyComponent, flag: 'bool', name: 'str'):
    require_inputs(self)
    require_outputs(self, 'tendency_properties', True)
    require_outputs(self, 'diagnostic_properties', False)
    diagnostics = self.diagnostic_properties
    if flag:
        diagnostics, added = tendency_diagnostics(self, name)
    if self.uses_tracers:
        packer_of(self)
    return diagnostics, label(self, name), flag


def tendency_result(self, flag, name, state):
    require_inputs(self)
    require_outputs(self, 'tendency_properties', True)
    require_outputs(self, 'diagnostic_properties', False)
    diagnostics, added = self.diagnostic_properties, []
    if flag:
        diagnostics, added = tendency_diagnostics(self, name)
    packer = packer_of(self) if self.uses_tracers else None
    require_state(self.input_properties, state)
    raw = delivered(self.input_properties, state)
    if self.uses_tracers:
        raw = merged(raw, {'tracers': packer.pack(state)})
    out, out_diagnostics = self.array_call(raw)
    tracers = {}
    if self.uses_tracers:
        tracers = packer.unpack(out['tracers'], state, multiply_unit=self.tracer_tendency_time_unit)
        out = without(out, 'tracers')
    require_computed(out, self.tendency_properties, self.input_properties, [])
    require_computed(out_diagnostics, diagnostics, self.input_properties, added)
    tendencies = merged(tracers, restore_data_arrays_with_properties(
        out, self.tendency_properties, state, self.input_properties))
    result = restore_data_arrays_with_properties(
        out_diagnostics, diagnostics, state, self.input_properties, ignore_names=added)
    if flag:
        result = dict(result)
        for q in tendencies:
            result[q + '_tendency_from_' + label(self, name)] = tendencies[q]
    return tendencies, result


def got_tendency_call_plain(self: TendencyComponent, name: 'str', state: 'map'):
    """C01 C02 C04 C23 C05:owned | at=sympl.TendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = False
    TendencyComponent.__init__(self, tendencies_in_diagnostics=False, name='n' + name)
    return TendencyComponent.__call__(self, state)


def want_tendency_call_plain(self: TendencyComponent, name: 'str', state: 'map'):
    self.uses_tracers = False
    return tendency_result(self, False, 'n' + name, state)


def got_tendency_call_tracers(self: TendencyComponent, name: 'str', prepend: 'any', state: 'map'):
    """C01 C02 C11 C05:owned | at=sympl.TendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = True
    self.prepend_tracers = prepend
    TendencyComponent.__init__(self, tendencies_in_diagnostics=False, name='n' + name)
    return TendencyComponent.__call__(self, state)


def want_tendency_call_tracers(self: TendencyComponent, name: 'str', prepend: 'any', state: 'map'):
    self.uses_tracers = True
    self.prepend_tracers = prepend
    return tendency_result(self, False, 'n' + name, state)


def got_tendency_call_labelled(self: TendencyComponent, name: 'str', state: 'map'):
    """C01 C02 C25 C05:owned | at=sympl.TendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = False
    TendencyComponent.__init__(self, tendencies_in_diagnostics=True, name='n' + name)
    return TendencyComponent.__call__(self, state)


def want_tendency_call_labelled(self: TendencyComponent, name: 'str', state: 'map'):
    self.uses_tracers = False
    return tendency_result(self, True, 'n' + name, state)


def got_tendency_call_labelled_tracers(self: TendencyComponent, name: 'str', prepend: 'any', state: 'map'):
    """C01 C02 C11 C25 C05:owned | at=sympl.TendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = True
    self.prepend_tracers = prepend
    TendencyComponent.__init__(self, tendencies_in_diagnostics=True, name='n' + name)
    return TendencyComponent.__call__(self, state)


def want_tendency_call_labelled_tracers(self: TendencyComponent, name: 'str', prepend: 'any', state: 'map'):
    self.uses_tracers = True
    self.prepend_tracers = prepend
    return tendency_result(self, True, 'n' + name, state)


def got_tendency_uninitialised(self: TendencyComponent, state: 'map'):
    """C03 | at=sympl.TendencyComponent.__call__ calls=.array_call bare=self"""
    return TendencyComponent.__call__(self, state)


def want_tendency_uninitialised(self: TendencyComponent, state: 'map'):
    raise RuntimeError()


# --- ImplicitTendencyComponent -------------------------------------------------------
def got_implicit_init(self: ImplicitTendencyComponent, flag: 'bool', name: 'str'):
    """C03 C25 | at=sympl.ImplicitTendencyComponent.__init__"""
    ImplicitTendencyComponent.__init__(self, tendencies_in_diagnostics=flag, name=name)
    return self.diagnostic_properties, self.name, self.tendencies_in_diagnostics


def want_implicit_init(self: ImplicitTendencyComponent, flag: 'bool', name: 'str'):
    require_inputs(self)
    require_outputs(self, 'tendency_properties', True)
    require_outputs(self, 'diagnostic_properties', False)
    diagnostics = self.diagnostic_properties
    if flag:
        diagnostics, added = tendency_diagnostics(self, name)
    if self.uses_tracers:
        packer_of(self)
    return diagnostics, label(self, name), flag


def implicit_result(self, flag, name, state, timestep):
    require_inputs(self)
    require_outputs(self, 'diagnostic_properties', False)
    require_outputs(self, 'tendency_properties', True)
    diagnostics, added = self.diagnostic_properties, []
    if flag:
        diagnostics, added = tendency_diagnostics(self, name)
    packer = packer_of(self) if self.uses_tracers else None
    require_state(self.input_properties, state)
    raw = delivered(self.input_properties, state)
    if self.uses_tracers:
        raw = merged(raw, {'tracers': packer.pack(state)})
    out, out_diagnostics = self.array_call(raw, timestep)
    tracers = {}
    if self.uses_tracers:
        tracers = packer.unpack(out['tracers'], state, multiply_unit=self.tracer_tendency_time_unit)
        out = without(out, 'tracers')
    require_computed(out, self.tendency_properties, self.input_properties, [])
    require_computed(out_diagnostics, diagnostics, self.input_properties, added)
    tendencies = merged(tracers, restore_data_arrays_with_properties(
        out, self.tendency_properties, state, self.input_properties))
    result = restore_data_arrays_with_properties(
        out_diagnostics, diagnostics, state, self.input_properties, ignore_names=added)
    if flag:
        result = dict(result)
        for q in tendencies:
            result[q + '_tendency_from_' + label(self, name)] = tendencies[q]
    return tendencies, result


def got_implicit_call_plain(self: ImplicitTendencyComponent, name: 'str', state: 'map', timestep: 'any'):
    """C01 C02 C04 C23 C05:owned | at=sympl.ImplicitTendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = False
    ImplicitTendencyComponent.__init__(self, tendencies_in_diagnostics=False, name='n' + name)
    return ImplicitTendencyComponent.__call__(self, state, timestep)


def want_implicit_call_plain(self: ImplicitTendencyComponent, name: 'str', state: 'map', timestep: 'any'):
    self.uses_tracers = False
    return implicit_result(self, False, 'n' + name, state, timestep)


def got_implicit_call_tracers(self: ImplicitTendencyComponent, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    """C01 C02 C11 C05:owned | at=sympl.ImplicitTendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = True
    self.prepend_tracers = prepend
    ImplicitTendencyComponent.__init__(self, tendencies_in_diagnostics=False, name='n' + name)
    return ImplicitTendencyComponent.__call__(self, state, timestep)


def want_implicit_call_tracers(self: ImplicitTendencyComponent, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    self.uses_tracers = True
    self.prepend_tracers = prepend
    return implicit_result(self, False, 'n' + name, state, timestep)


def got_implicit_call_labelled(self: ImplicitTendencyComponent, name: 'str', state: 'map', timestep: 'any'):
    """C01 C02 C25 C05:owned | at=sympl.ImplicitTendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = False
    ImplicitTendencyComponent.__init__(self, tendencies_in_diagnostics=True, name='n' + name)
    return ImplicitTendencyComponent.__call__(self, state, timestep)


def want_implicit_call_labelled(self: ImplicitTendencyComponent, name: 'str', state: 'map', timestep: 'any'):
    self.uses_tracers = False
    return implicit_result(self, True, 'n' + name, state, timestep)


def got_implicit_call_labelled_tracers(self: ImplicitTendencyComponent, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    """C01 C02 C11 C25 C05:owned | at=sympl.ImplicitTendencyComponent.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = True
    self.prepend_tracers = prepend
    ImplicitTendencyComponent.__init__(self, tendencies_in_diagnostics=True, name='n' + name)
    return ImplicitTendencyComponent.__call__(self, state, timestep)


def want_implicit_call_labelled_tracers(self: ImplicitTendencyComponent, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    self.uses_tracers = True
    self.prepend_tracers = prepend
    return implicit_result(self, True, 'n' + name, state, timestep)


def got_implicit_uninitialised(self: ImplicitTendencyComponent, state: 'map', timestep: 'any'):
    """C03 | at=sympl.ImplicitTendencyComponent.__call__ calls=.array_call bare=self"""
    return ImplicitTendencyComponent.__call__(self, state, timestep)


def want_implicit_uninitialised(self: ImplicitTendencyComponent, state: 'map', timestep: 'any'):
    raise RuntimeError()


# --- Stepper -----------------------------------------------------------------------
def got_stepper_init(self: Stepper, flag: 'bool', name: 'str'):
    """C03 C25 | at=sympl.Stepper.__init__"""
    Stepper.__init__(self, tendencies_in_diagnostics=flag, name=name)
    return self.input_properties, self.diagnostic_properties, self.name, self.tendencies_in_diagnostics


def want_stepper_init(self: Stepper, flag: 'bool', name: 'str'):
    require_inputs(self)
    require_outputs(self, 'diagnostic_properties', False)
    require_outputs(self, 'output_properties', False)
    inputs, diagnostics = self.input_properties, self.diagnostic_properties
    if flag:
        inputs, diagnostics, added = stepper_diagnostics(self, name)
    if self.uses_tracers:
        packer_of(self)
    return inputs, diagnostics, label(self, name), flag


def output_key(name, outputs, inputs):
    if 'alias' in outputs[name]:
        return outputs[name]['alias']
    if name in inputs and 'alias' in inputs[name]:
        return inputs[name]['alias']
    return name


def input_key(name, inputs):
    return inputs[name].get('alias', name)


def stepper_result(self, flag, name, state, timestep):
    require_inputs(self)
    require_outputs(self, 'diagnostic_properties', False)
    require_outputs(self, 'output_properties', False)
    inputs, diagnostics, added = self.input_properties, self.diagnostic_properties, []
    if flag:
        inputs, diagnostics, added = stepper_diagnostics(self, name)
    packer = packer_of(self) if self.uses_tracers else None
    require_state(inputs, state)
    raw = delivered(inputs, state)
    if self.uses_tracers:
        raw = merged(raw, {'tracers': packer.pack(state)})
    out_diagnostics, out = self.array_call(raw, timestep)
    tracers = {}
    if self.uses_tracers:
        tracers = packer.unpack(out['tracers'], state)
        out = without(out, 'tracers')
    require_computed(out_diagnostics, diagnostics, inputs, added)
    require_computed(out, self.output_properties, inputs, [])
    if flag:
        out_diagnostics = dict(out_diagnostics)
        for q in self.output_properties:
            out_diagnostics[q + '_tendency_from_' + label(self, name)] = (
                out[output_key(q, self.output_properties, inputs)] - raw[input_key(q, inputs)]
            ) / timestep.total_seconds() * self.time_unit_timedelta.total_seconds()
    result = restore_data_arrays_with_properties(
        out_diagnostics, diagnostics, state, inputs)
    return result, merged(tracers, restore_data_arrays_with_properties(
        out, self.output_properties, state, inputs))


def got_stepper_call_plain(self: Stepper, name: 'str', state: 'map', timestep: 'any'):
    """C01 C02 C04 C23 C05:owned | at=sympl.Stepper.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = False
    Stepper.__init__(self, tendencies_in_diagnostics=False, name='n' + name)
    return Stepper.__call__(self, state, timestep)


def want_stepper_call_plain(self: Stepper, name: 'str', state: 'map', timestep: 'any'):
    self.uses_tracers = False
    return stepper_result(self, False, 'n' + name, state, timestep)


def got_stepper_call_tracers(self: Stepper, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    """C01 C02 C11 C05:owned | at=sympl.Stepper.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = True
    self.prepend_tracers = prepend
    Stepper.__init__(self, tendencies_in_diagnostics=False, name='n' + name)
    return Stepper.__call__(self, state, timestep)


def want_stepper_call_tracers(self: Stepper, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    self.uses_tracers = True
    self.prepend_tracers = prepend
    return stepper_result(self, False, 'n' + name, state, timestep)


def got_stepper_call_labelled(self: Stepper, name: 'str', state: 'map', timestep: 'any'):
    """C01 C02 C25 C05:owned | at=sympl.Stepper.__call__ calls=.array_call,.pack,.unpack heap=state"""
    self.uses_tracers = False
    Stepper.__init__(self, tendencies_in_diagnostics=True, name='n' + name)
    return Stepper.__call__(self, state, timestep)


def want_stepper_call_labelled(self: Stepper, name: 'str', state: 'map', timestep: 'any'):
    self.uses_tracers = False
    return stepper_result(self, True, 'n' + name, state, timestep)


def got_stepper_call_labelled_tracers(self: Stepper, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    """C01 C02 C11 C25 C05:owned | at=sympl.Stepper.__call__ calls=.array_call,.pack,.unpack heap=state tier=thorough"""
    self.uses_tracers = True
    self.prepend_tracers = prepend
    Stepper.__init__(self, tendencies_in_diagnostics=True, name='n' + name)
    return Stepper.__call__(self, state, timestep)


def want_stepper_call_labelled_tracers(self: Stepper, name: 'str', prepend: 'any', state: 'map', timestep: 'any'):
    self.uses_tracers = True
    self.prepend_tracers = prepend
    return stepper_result(self, True, 'n' + name, state, timestep)


def got_stepper_uninitialised(self: Stepper, state: 'map', timestep: 'any'):
    """C03 | at=sympl.Stepper.__call__ calls=.array_call bare=self"""
    return Stepper.__call__(self, state, timestep)


def want_stepper_uninitialised(self: Stepper, state: 'map', timestep: 'any'):
    raise RuntimeError()
