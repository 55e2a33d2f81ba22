"""Components with a few named quantities: the requirements of components.py on properties whose names are known,
so that every loop over them is followed entry by entry (analysed, never run)."""
from sympl import (
    Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent,
    InvalidPropertyDictError, units_are_compatible)
from spec.components import (
    want_diagnostic_call, tendency_result, implicit_result, stepper_result)


def some_inputs():
    return {'wind': {'dims': ['*', 'mid'], 'units': 'm s^-1', 'alias': 'u'},
            'wind_speed': {'dims': ['*', 'mid'], 'units': 'm s^-1'},
            'surface_flux': {'dims': ['*'], 'units': 'W m^-2', 'alias': 'wind_flux'}}


def some_diagnostics():
    return {'flux': {'dims': ['*', 'interface'], 'units': 'W m^-2', 'alias': 'F'},
            'wind': {'units': 'm s^-1'}}


def some_tendencies():
    return {'wind': {'units': 'm s^-2'}, 'heat': {'dims': ['*', 'mid'], 'units': 'K s^-1', 'alias': 'q'}}


def some_outputs():
    return {'wind': {'units': 'm s^-1', 'alias': 'u_out'}, 'heat': {'dims': ['*', 'mid'], 'units': 'K'}}


def got_diagnostic_named(self: DiagnosticComponent, state: 'map'):
    """C01 C02 C05:owned | at=sympl.DiagnosticComponent.__call__ calls=.array_call heap=state"""
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    DiagnosticComponent.__init__(self)
    return DiagnosticComponent.__call__(self, state)


def want_diagnostic_named(self: DiagnosticComponent, state: 'map'):
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    return want_diagnostic_call(self, state)


def got_tendency_named(self: TendencyComponent, state: 'map'):
    """C01 C02 C25 C05:owned | at=sympl.TendencyComponent.__call__ calls=.array_call heap=state"""
    self.uses_tracers = False
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    self.tendency_properties = some_tendencies()
    TendencyComponent.__init__(self, tendencies_in_diagnostics=True, name='core')
    return TendencyComponent.__call__(self, state)


def want_tendency_named(self: TendencyComponent, state: 'map'):
    self.uses_tracers = False
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    self.tendency_properties = some_tendencies()
    return tendency_result(self, True, 'core', state)


def got_implicit_named(self: ImplicitTendencyComponent, state: 'map', timestep: 'any'):
    """C01 C02 C25 C05:owned | at=sympl.ImplicitTendencyComponent.__call__ calls=.array_call heap=state"""
    self.uses_tracers = False
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    self.tendency_properties = some_tendencies()
    ImplicitTendencyComponent.__init__(self, tendencies_in_diagnostics=True, name='core')
    return ImplicitTendencyComponent.__call__(self, state, timestep)


def want_implicit_named(self: ImplicitTendencyComponent, state: 'map', timestep: 'any'):
    self.uses_tracers = False
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    self.tendency_properties = some_tendencies()
    return implicit_result(self, True, 'core', state, timestep)


def got_stepper_named(self: Stepper, state: 'map', timestep: 'any'):
    """C01 C02 C25 C05:owned | at=sympl.Stepper.__call__ calls=.array_call heap=state"""
    self.uses_tracers = False
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    self.output_properties = some_outputs()
    Stepper.__init__(self, tendencies_in_diagnostics=True, name='core')
    return Stepper.__call__(self, state, timestep)


def want_stepper_named(self: Stepper, state: 'map', timestep: 'any'):
    self.uses_tracers = False
    self.input_properties, self.diagnostic_properties = some_inputs(), some_diagnostics()
    self.output_properties = some_outputs()
    return stepper_result(self, True, 'core', state, timestep)


# --- what may be declared ---------------------------------------------------------
def got_diagnostic_declared(self: DiagnosticComponent, p: 'str', q: 'str', r: 'str', s: 'str', t: 'str', u: 'str'):
    """C03 | at=sympl.DiagnosticComponent.__init__"""
    self.input_properties = {'wind': {'dims': ['x'], 'units': p}, 'heat': {'dims': ['x'], 'units': q},
                             'flux': {'dims': ['x'], 'units': r}}
    self.diagnostic_properties = {'wind': {'dims': ['x'], 'units': s}, 'heat': {'units': t}, 'flux': {'units': u}}
    DiagnosticComponent.__init__(self)


def want_diagnostic_declared(self: DiagnosticComponent, p: 'str', q: 'str', r: 'str', s: 'str', t: 'str', u: 'str'):
    for a, b in ((p, s), (q, t), (r, u)):
        if not units_are_compatible(a, b):
            raise InvalidPropertyDictError()


def got_tendency_declared(self: TendencyComponent, p: 'str', q: 'str', s: 'str', t: 'str'):
    """C03 | at=sympl.TendencyComponent.__init__"""
    self.uses_tracers = False
    self.input_properties = {'wind': {'dims': ['x'], 'units': 'm' + p}, 'heat': {'dims': ['x'], 'units': 'm' + q}}
    self.diagnostic_properties = {}
    self.tendency_properties = {'wind': {'dims': ['x'], 'units': s}, 'heat': {'units': t}}
    TendencyComponent.__init__(self)


def want_tendency_declared(self: TendencyComponent, p: 'str', q: 'str', s: 'str', t: 'str'):
    for a, b in ((p, s), (q, t)):
        if not units_are_compatible('m' + a + ' s^-1', b):
            raise InvalidPropertyDictError()


def got_implicit_declared(self: ImplicitTendencyComponent, p: 'str', q: 'str', s: 'str', t: 'str', u: 'str', v: 'str'):
    """C03 | at=sympl.ImplicitTendencyComponent.__init__"""
    self.uses_tracers = False
    self.input_properties = {'wind': {'dims': ['x'], 'units': 'm' + p}, 'heat': {'dims': ['x'], 'units': 'm' + q}}
    self.diagnostic_properties = {'wind': {'units': u}, 'heat': {'units': v}, 'flux': {'dims': ['y'], 'units': p}}
    self.tendency_properties = {'wind': {'dims': ['x'], 'units': s}, 'heat': {'units': t}}
    ImplicitTendencyComponent.__init__(self)


def want_implicit_declared(self: ImplicitTendencyComponent, p: 'str', q: 'str', s: 'str', t: 'str', u: 'str', v: 'str'):
    for a, b in ((p, s), (q, t)):
        if not units_are_compatible('m' + a + ' s^-1', b):
            raise InvalidPropertyDictError()
    for a, b in ((p, u), (q, v)):
        if not units_are_compatible('m' + a, b):
            raise InvalidPropertyDictError()


def got_stepper_declared(self: Stepper, p: 'str', q: 'str', s: 'str', t: 'str', u: 'str', v: 'str'):
    """C03 | at=sympl.Stepper.__init__"""
    self.uses_tracers = False
    self.input_properties = {'wind': {'dims': ['x'], 'units': p}, 'heat': {'dims': ['x'], 'units': q}}
    self.diagnostic_properties = {'wind': {'units': u}, 'heat': {'units': v}}
    self.output_properties = {'wind': {'dims': ['x'], 'units': s}, 'heat': {'units': t}}
    Stepper.__init__(self)


def want_stepper_declared(self: Stepper, p: 'str', q: 'str', s: 'str', t: 'str', u: 'str', v: 'str'):
    for a, b in ((p, u), (q, v), (p, s), (q, t)):
        if not units_are_compatible(a, b):
            raise InvalidPropertyDictError()


def got_stepper_aliases(self: Stepper, a: 'str', b: 'str', c: 'str', d: 'str', e: 'str', f: 'str'):
    """C03 | at=sympl.Stepper.__init__"""
    self.uses_tracers = False
    self.input_properties = {'wind': {'dims': ['x'], 'units': 'm', 'alias': a}, 'heat': {'dims': ['x'], 'units': 'm', 'alias': b},
                             'flux': {'dims': ['x'], 'units': 'm'}}
    self.diagnostic_properties = {'rain': {'dims': ['x'], 'units': 'm', 'alias': c}, 'snow': {'dims': ['x'], 'units': 'm', 'alias': d}}
    self.output_properties = {'ice': {'dims': ['x'], 'units': 'm', 'alias': e}, 'hail': {'dims': ['x'], 'units': 'm', 'alias': f}}
    Stepper.__init__(self)


def want_stepper_aliases(self: Stepper, a: 'str', b: 'str', c: 'str', d: 'str', e: 'str', f: 'str'):
    if a == b or c == d or e == f:
        raise InvalidPropertyDictError()

