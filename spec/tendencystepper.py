"""Required behaviour common to the tendency steppers (analysed, never run)."""
from sympl import (
    TendencyComponent, AdamsBashforth, Leapfrog, SSPRungeKutta, TendencyStepper, Stepper,
    ImplicitTendencyComponentComposite,
    InvalidPropertyDictError, combine_component_properties)
from sympl._core.combine_properties import combine_properties
from sympl._core.units import clean_units


class Probe(TendencyComponent):
    def __call__(self, state):
        tendencies, diagnostics = {}, {}
        for name in self.tendency_properties:
            tendencies[name] = self.quantity_tendency(name, state)
        for name in self.diagnostic_properties:
            diagnostics[name] = self.quantity_diagnostic(name, state)
        return tendencies, diagnostics


class Scheme(TendencyStepper):
    """any scheme"""

    def _call(self, state, timestep):
        new, diagnostics = {}, {}
        for name in self.prognostic.component_list[0].tendency_properties:
            new[name] = self.prognostic.component_list[0].quantity_new(name, state, timestep)
        for name in self.prognostic.component_list[0].diagnostic_properties:
            diagnostics[name] = self.prognostic.component_list[0].quantity_later(name, state, timestep)
        return diagnostics, new


def got_stepper_untouched(component: Probe, state: 'map:quantity', timestep: 'time'):
    """C09 C04 | at=sympl.TendencyStepper.__call__ heap=state noraise"""
    stepper = Scheme(component)
    return stepper(state, timestep), stepper.name


def want_stepper_untouched(component: Probe, state: 'map:quantity', timestep: 'time'):
    stepper = Scheme(component)
    new, diagnostics = dict(state), {}
    for name in component.tendency_properties:
        new[name] = component.quantity_new(name, state, timestep)
    for name in component.diagnostic_properties:
        diagnostics[name] = component.quantity_later(name, state, timestep)
    return (diagnostics, new), 'Scheme'


def tendency_properties(component):
    return combine_component_properties(
        (component,), 'tendency_properties', combine_component_properties((component,), 'input_properties'))


def output_properties(component):
    out = {}
    declared = tendency_properties(component)
    for name in declared:
        out[name] = dict(declared[name])
        out[name]['units'] = clean_units(declared[name]['units'] + ' s')
    return out


def got_stepper_labelled(component: Probe, state: 'map:quantity', timestep: 'time', name: 'str'):
    """C25 C09 C04 | at=sympl.TendencyStepper.__call__ heap=state noraise"""
    stepper = Scheme(component, tendencies_in_diagnostics=True, name='n' + name)
    return stepper(state, timestep)


def want_stepper_labelled(component: Probe, state: 'map:quantity', timestep: 'time', name: 'str'):
    stepper = Scheme(component)
    new, diagnostics = dict(state), {}
    for q in component.tendency_properties:
        new[q] = component.quantity_new(q, state, timestep)
    for q in component.diagnostic_properties:
        diagnostics[q] = component.quantity_later(q, state, timestep)
    outputs = output_properties(component)
    inputs = combine_properties([combine_component_properties((component,), 'input_properties'), outputs])
    for q in outputs:
        label = q + '_tendency_from_n' + name
        if label in diagnostics:
            raise RuntimeError()
        units = inputs[q]['units']
        diagnostics[label] = (new[q].to_units(units) - state[q].to_units(units)) / timestep.total_seconds()
        diagnostics[label].attrs['units'] = 's^-1' if units == '' else units + ' s^-1'
    return diagnostics, new


def got_stepper_properties(component: Probe):
    """C09 C10 | at=sympl.TendencyStepper.__init__ noraise"""
    stepper = Scheme(component)
    return stepper.input_properties, stepper.output_properties, stepper.diagnostic_properties


def want_stepper_properties(component: Probe):
    outputs = output_properties(component)
    inputs = combine_properties([combine_component_properties((component,), 'input_properties'), outputs])
    return inputs, outputs, component.diagnostic_properties


def got_stepper_labelled_properties(component: Probe, name: 'str'):
    """C25 | at=sympl.TendencyStepper.diagnostic_properties noraise"""
    stepper = Scheme(component, tendencies_in_diagnostics=True, name='n' + name)
    return stepper.diagnostic_properties, stepper.tendencies_in_diagnostics


def want_stepper_labelled_properties(component: Probe, name: 'str'):
    diagnostics = dict(component.diagnostic_properties)
    declared = tendency_properties(component)
    for q in declared:
        diagnostics[q + '_tendency_from_n' + name] = {
            'units': declared[q]['units'], 'dims': declared[q]['dims']}
    return diagnostics, True
