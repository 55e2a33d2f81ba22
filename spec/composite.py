"""Required behaviour of composites (analysed, never run)."""
from sympl import (
    TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent, Stepper, Monitor, SharedKeyError,
    TendencyComponentComposite, ImplicitTendencyComponentComposite,
    DiagnosticComponentComposite, MonitorComposite, InvalidPropertyDictError,
    combine_component_properties)


class First(TendencyComponent):
    def __call__(self, state):
        tendencies, diagnostics = {}, {}
        for name in self.tendency_properties:
            tendencies[name] = self.quantity_tendency(name, state)
        for name in self.diagnostic_properties:
            diagnostics[name] = self.quantity_diagnostic(name, state)
        return tendencies, diagnostics


class Second(ImplicitTendencyComponent):
    def __call__(self, state, timestep):
        tendencies, diagnostics = {}, {}
        for name in self.tendency_properties:
            tendencies[name] = self.quantity_tendency(name, state, timestep)
        for name in self.diagnostic_properties:
            diagnostics[name] = self.quantity_diagnostic(name, state, timestep)
        return tendencies, diagnostics


class Diagnostic(DiagnosticComponent):
    def __call__(self, state):
        diagnostics = {}
        for name in self.diagnostic_properties:
            diagnostics[name] = self.quantity_diagnostic(name, state)
        return diagnostics


def total(results):
    """sum of tendencies, each converted to the units of the first to compute it"""
    tendencies, diagnostics = {}, {}
    for t, d in results:
        for name in t:
            if name in tendencies:
                tendencies[name] = tendencies[name] + t[name].to_units(tendencies[name].attrs['units'])
            else:
                tendencies[name] = t[name].copy()
        for name in d:
            diagnostics[name] = d[name]
    return tendencies, diagnostics


def got_tendency_composite_one(a: First, state: 'map'):
    """C07 C05 C06 | at=sympl.TendencyComponentComposite.__call__ heap=state noraise"""
    return TendencyComponentComposite(a)(state)


def want_tendency_composite_one(a: First, state: 'map'):
    return total([a(state)])


def got_tendency_composite_two(a: First, b: First, state: 'map'):
    """C07 C05 C06 | at=sympl.TendencyComponentComposite.__call__ heap=state attrs noraise"""
    return TendencyComponentComposite(a, b)(state)


def want_tendency_composite_two(a: First, b: First, state: 'map'):
    return total([a(state), b(state)])


def got_tendency_composite_three(a: First, b: First, c: First, state: 'map'):
    """C07 C05 C06 | at=sympl.TendencyComponentComposite.__call__ heap=state attrs noraise"""
    return TendencyComponentComposite(a, b, c)(state)


def want_tendency_composite_three(a: First, b: First, c: First, state: 'map'):
    return total([a(state), b(state), c(state)])


def got_implicit_composite(a: First, b: Second, c: First, state: 'map', timestep: 'time'):
    """C07 C05 C06 | at=sympl.ImplicitTendencyComponentComposite.__call__ heap=state attrs noraise"""
    return ImplicitTendencyComponentComposite(a, b, c)(state, timestep)


def want_implicit_composite(a: First, b: Second, c: First, state: 'map', timestep: 'time'):
    return total([a(state), b(state, timestep), c(state)])


def got_diagnostic_composite(a: Diagnostic, b: Diagnostic, c: Diagnostic, state: 'map'):
    """C07 C05 | at=sympl.DiagnosticComponentComposite.__call__ heap=state"""
    return DiagnosticComponentComposite.__call__(DiagnosticComponentComposite(a, b, c), state)


def want_diagnostic_composite(a: Diagnostic, b: Diagnostic, c: Diagnostic, state: 'map'):
    composite = DiagnosticComponentComposite(a, b, c)
    diagnostics = {}
    for component in (a, b, c):
        for name in component.diagnostic_properties:
            if name in diagnostics:
                raise SharedKeyError()
        for name in component.diagnostic_properties:
            diagnostics[name] = component.quantity_diagnostic(name, state)
    return diagnostics


# --- any number of components -------------------------------------------------------
def got_composite_calls(self: TendencyComponentComposite, state: 'map'):
    """C07 | at=sympl.TendencyComponentComposite.__call__ heap=state calls=<element> ordered noret noraise"""
    return TendencyComponentComposite.__call__(self, state)


def want_composite_calls(self: TendencyComponentComposite, state: 'map'):
    for component in self.component_list:
        component(state)


def got_diagnostic_composite_calls(self: DiagnosticComponentComposite, state: 'map'):
    """C07 | at=sympl.DiagnosticComponentComposite.__call__ heap=state calls=<element> ordered noret noraise"""
    return DiagnosticComponentComposite.__call__(self, state)


def want_diagnostic_composite_calls(self: DiagnosticComponentComposite, state: 'map'):
    for component in self.component_list:
        component(state)


def got_implicit_composite_calls(self: ImplicitTendencyComponentComposite, state: 'map', timestep: 'time'):
    """C07 | at=sympl.ImplicitTendencyComponentComposite.__call__ heap=state calls=<element> ordered noret noraise"""
    return ImplicitTendencyComponentComposite.__call__(self, state, timestep)


def want_implicit_composite_calls(self: ImplicitTendencyComponentComposite, state: 'map', timestep: 'time'):
    for component in self.component_list:
        if isinstance(component, ImplicitTendencyComponent):
            component(state, timestep)
        elif isinstance(component, TendencyComponent):
            component(state)


def got_monitor_composite(self: MonitorComposite, state: 'map'):
    """C07 | at=sympl.MonitorComposite.store heap=state calls=.store ordered"""
    return MonitorComposite.store(self, state)


def want_monitor_composite(self: MonitorComposite, state: 'map'):
    for monitor in self.component_list:
        monitor.store(state)


# --- construction ---------------------------------------------------------------------
def require_composable(components):
    """no two components compute the same diagnostic; every diagnostic has dims"""
    inputs = combine_component_properties(components, 'input_properties')
    diagnostics = {}
    for component in components:
        for name in component.diagnostic_properties:
            if name in diagnostics:
                raise SharedKeyError()
        for name in component.diagnostic_properties:
            diagnostics[name] = component.diagnostic_properties[name]
    for name in diagnostics:
        if 'dims' not in diagnostics[name] and name not in inputs:
            raise InvalidPropertyDictError()
    return inputs, diagnostics


def got_tendency_composite_properties(a: First, b: First):
    """C07 C10 | at=sympl.TendencyComponentComposite.__init__ noraise"""
    composite = TendencyComponentComposite(a, b)
    return composite.input_properties, composite.diagnostic_properties, composite.tendency_properties


def want_tendency_composite_properties(a: First, b: First):
    components = (a, b)
    inputs, diagnostics = require_composable(components)
    return inputs, diagnostics, combine_component_properties(components, 'tendency_properties', inputs)


def got_composite_duplicate(a: First, b: First, c: First):
    """C07 | at=sympl.TendencyComponentComposite.__init__ exc=SharedKeyError noret"""
    TendencyComponentComposite(a, b, c)


def want_composite_duplicate(a: First, b: First, c: First):
    require_composable((a, b, c))


def got_implicit_composite_duplicate(a: First, b: Second, c: First):
    """C07 | at=sympl.ImplicitTendencyComponentComposite.__init__ exc=SharedKeyError noret"""
    ImplicitTendencyComponentComposite(a, b, c)


def want_implicit_composite_duplicate(a: First, b: Second, c: First):
    require_composable((a, b, c))


def got_diagnostic_composite_duplicate(a: Diagnostic, b: Diagnostic, c: Diagnostic):
    """C07 | at=sympl.DiagnosticComponentComposite exc=SharedKeyError noret"""
    DiagnosticComponentComposite(a, b, c)


def want_diagnostic_composite_duplicate(a: Diagnostic, b: Diagnostic, c: Diagnostic):
    require_composable((a, b, c))


def got_composite_types(a: 'any', b: 'any'):
    """C24 C07 | at=sympl.TendencyComponentComposite.__init__"""
    if isinstance(a, TendencyComponent) and isinstance(b, TendencyComponent):
        raise ValueError()
    TendencyComponentComposite(a, b)


def want_composite_types(a: 'any', b: 'any'):
    if isinstance(a, TendencyComponent) and isinstance(b, TendencyComponent):
        raise ValueError()
    raise TypeError()


def got_implicit_composite_types(a: 'any'):
    """C24 C07 | at=sympl.ImplicitTendencyComponentComposite.__init__"""
    if isinstance(a, (TendencyComponent, ImplicitTendencyComponent)):
        raise ValueError()
    ImplicitTendencyComponentComposite(a)


def want_implicit_composite_types(a: 'any'):
    if isinstance(a, (TendencyComponent, ImplicitTendencyComponent)):
        raise ValueError()
    raise TypeError()


def got_diagnostic_composite_types(a: 'any'):
    """C24 C07 | at=sympl.DiagnosticComponentComposite"""
    if isinstance(a, DiagnosticComponent):
        raise ValueError()
    DiagnosticComponentComposite(a)


def want_diagnostic_composite_types(a: 'any'):
    if isinstance(a, DiagnosticComponent):
        raise ValueError()
    raise TypeError()


def got_monitor_composite_types(a: 'any'):
    """C24 C07 | at=sympl.MonitorComposite"""
    if isinstance(a, Monitor):
        raise ValueError()
    MonitorComposite(a)


def want_monitor_composite_types(a: 'any'):
    if isinstance(a, Monitor):
        raise ValueError()
    raise TypeError()
