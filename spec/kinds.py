"""Recognition of component kinds by their interface (analysed, never run)."""
from inspect import getfullargspec
from sympl import Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent
from sympl._core.base_components import ComponentMeta

INTERFACE = ('input_properties', 'tendency_properties', 'diagnostic_properties', 'output_properties',
             '__call__', 'array_call', 'tendencies_in_diagnostics', 'name')


def plays(instance, required, timestep):
    if not hasattr(instance, '__call__'):
        return False
    for name in INTERFACE:
        if name in required:
            if not hasattr(instance, name):
                return False
        elif name != 'name' and hasattr(instance, name):
            return False        # any object may have a name
    spec = getfullargspec(instance.__call__)
    if ('timestep' in spec.args) == timestep:
        return True
    defaults = {}
    if spec.defaults is not None:
        for i, default in enumerate(reversed(spec.defaults)):
            defaults[spec.args[len(spec.args) - 1 - i]] = default
    return 'timestep' in defaults and defaults['timestep'] is None


def inherits(instance):
    return issubclass(instance.__class__, Stepper) or issubclass(instance.__class__, TendencyComponent) or \
        issubclass(instance.__class__, ImplicitTendencyComponent) or issubclass(instance.__class__, DiagnosticComponent)


def got_kind_tendency(instance: 'any'):
    """C21 | at=sympl._core.base_components.ComponentMeta.__instancecheck__"""
    return ComponentMeta.__instancecheck__(TendencyComponent, instance)


def want_kind_tendency(instance: 'any'):
    if inherits(instance):
        return issubclass(instance.__class__, TendencyComponent)
    return plays(instance, ('input_properties', 'tendency_properties', 'diagnostic_properties',
                            '__call__', 'array_call', 'tendencies_in_diagnostics', 'name'), False)


def got_kind_implicit(instance: 'any'):
    """C21 | at=sympl._core.base_components.ComponentMeta.__instancecheck__"""
    return ComponentMeta.__instancecheck__(ImplicitTendencyComponent, instance)


def want_kind_implicit(instance: 'any'):
    if inherits(instance):
        return issubclass(instance.__class__, ImplicitTendencyComponent)
    return plays(instance, ('input_properties', 'tendency_properties', 'diagnostic_properties',
                            '__call__', 'array_call', 'tendencies_in_diagnostics', 'name'), True)


def got_kind_stepper(instance: 'any'):
    """C21 | at=sympl._core.base_components.ComponentMeta.__instancecheck__"""
    return ComponentMeta.__instancecheck__(Stepper, instance)


def want_kind_stepper(instance: 'any'):
    if inherits(instance):
        return issubclass(instance.__class__, Stepper)
    return plays(instance, ('input_properties', 'diagnostic_properties', 'output_properties',
                            '__call__', 'array_call', 'tendencies_in_diagnostics'), True)


def got_kind_diagnostic(instance: 'any'):
    """C21 | at=sympl._core.base_components.ComponentMeta.__instancecheck__"""
    return ComponentMeta.__instancecheck__(DiagnosticComponent, instance)


def want_kind_diagnostic(instance: 'any'):
    if inherits(instance):
        return issubclass(instance.__class__, DiagnosticComponent)
    return plays(instance, ('input_properties', 'diagnostic_properties', '__call__', 'array_call'), False)
