"""Composites, ready-made components, tendency steppers and monitors on a few named quantities (analysed, never run)."""
from sympl import (
    TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent, Stepper, TendencyStepper,
    TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite,
    ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent, TimeDifferencingWrapper, UpdateFrequencyWrapper, ScalingWrapper, NetCDFMonitor,
    InvalidPropertyDictError, SharedKeyError, combine_component_properties)
from spec.composite import total
from spec.components import tendency_result, want_diagnostic_call as diagnostic_result
from spec.basic import want_differencing, declared, values
from sympl._components import netcdf
from spec.netcdf import want_combine_states


class Dynamics(TendencyComponent):
    def __call__(self, state):
        return ({'wind': self.quantity_wind(state), 'heat': self.quantity_heat(state)},
                {'wind_flux': self.quantity_flux(state)})


class Mixing(ImplicitTendencyComponent):
    def __call__(self, state, timestep):
        return ({'heat': self.quantity_heat(state, timestep), 'vapor': self.quantity_vapor(state, timestep)},
                {'wind': self.quantity_wind(state, timestep)})


class Rain(DiagnosticComponent):
    def __call__(self, state):
        return {'rain': self.quantity_rain(state), 'snow': self.quantity_snow(state)}


class Wind(DiagnosticComponent):
    def __call__(self, state):
        return {'gust': self.quantity_gust(state)}


def got_composite_named(a: Dynamics, b: Mixing, c: Dynamics, state: 'map', timestep: 'time'):
    """C07 C05 C06 | at=sympl.ImplicitTendencyComponentComposite.__call__ heap=state attrs noraise"""
    return ImplicitTendencyComponentComposite(a, b, c)(state, timestep)


def want_composite_named(a: Dynamics, b: Mixing, c: Dynamics, state: 'map', timestep: 'time'):
    return total([a(state), b(state, timestep), c(state)])


def got_tendency_composite_named(a: Dynamics, b: Dynamics, c: Dynamics, state: 'map'):
    """C07 C05 C06 | at=sympl.TendencyComponentComposite.__call__ heap=state attrs noraise"""
    composite = TendencyComponentComposite(a, b, c)
    return composite(state), composite(state)


def want_tendency_composite_named(a: Dynamics, b: Dynamics, c: Dynamics, state: 'map'):
    return total([a(state), b(state), c(state)]), total([a(state), b(state), c(state)])


def got_diagnostic_composite_named(a: Rain, b: Wind, state: 'map'):
    """C07 C05 | at=sympl.DiagnosticComponentComposite.__call__ heap=state noraise"""
    return DiagnosticComponentComposite(a, b)(state)


def want_diagnostic_composite_named(a: Rain, b: Wind, state: 'map'):
    out = {}
    for component in (a, b):
        result = component(state)
        for name in result:
            out[name] = result[name]
    return out


def got_duplicates_named(a: Dynamics, b: Dynamics, p: 'str', q: 'str', r: 'str'):
    """C07 | at=sympl.TendencyComponentComposite.__init__ exc=SharedKeyError noret"""
    a.diagnostic_properties = {p: {'dims': ['x'], 'units': 'm'}, 'heat': {'dims': ['x'], 'units': 'm'}}
    b.diagnostic_properties = {'wind': {'dims': ['x'], 'units': 'm'}, q: {'dims': ['x'], 'units': 'm'}}
    TendencyComponentComposite(a, b)


def want_duplicates_named(a: Dynamics, b: Dynamics, p: 'str', q: 'str', r: 'str'):
    if p == 'wind' or q == 'heat' or p == q:
        raise SharedKeyError()


# -------------------------------------------------------------------- ready-made components
def got_constants_named(p: 'quantity', q: 'quantity', r: 'quantity', state: 'map'):
    """C19 | at=sympl.ConstantTendencyComponent heap=state noraise"""
    t, d = {'wind': p, 'heat': q}, {'flux': r}
    c, e = ConstantTendencyComponent(t, d), ConstantDiagnosticComponent(t)
    return (c.input_properties, c.tendency_properties, c.diagnostic_properties, c.array_call(state), c.array_call(state),
            e.input_properties, e.diagnostic_properties, e.array_call(state))


def want_constants_named(p: 'quantity', q: 'quantity', r: 'quantity', state: 'map'):
    t, d = {'wind': p, 'heat': q}, {'flux': r}
    return ({}, declared(t), declared(d), (values(t), values(d)), (values(t), values(d)), {}, declared(t), values(t))


class Physics(Stepper):
    def __call__(self, state, timestep):
        return ({'flux': self.quantity_flux(state, timestep)},
                {'wind': self.quantity_wind(state, timestep), 'heat': self.quantity_heat(state, timestep)})


def got_differencing_named(stepper: Physics, u: 'str', v: 'str', state: 'map', timestep: 'time'):
    """C19 C06 C05 | at=sympl.TimeDifferencingWrapper.__call__ heap=state attrs"""
    stepper.output_properties = {'wind': {'dims': ['x'], 'units': u}, 'heat': {'dims': ['x'], 'units': v}}
    wrapper = TimeDifferencingWrapper(stepper)
    return wrapper(state, timestep), wrapper(state, timestep), wrapper.tendency_properties, stepper.output_properties


def want_differencing_named(stepper: Physics, u: 'str', v: 'str', state: 'map', timestep: 'time'):
    stepper.output_properties = {'wind': {'dims': ['x'], 'units': u}, 'heat': {'dims': ['x'], 'units': v}}
    return (want_differencing(stepper, state, timestep), want_differencing(stepper, state, timestep),
            {'wind': {'dims': ['x'], 'units': u + ' s^-1'}, 'heat': {'dims': ['x'], 'units': v + ' s^-1'}},
            {'wind': {'dims': ['x'], 'units': u}, 'heat': {'dims': ['x'], 'units': v}})


# ------------------------------------------------------------------------------- monitors
def got_store_named(p: 'quantity', q: 'quantity', r: 'quantity', t: 'any', filename: 'str'):
    """C15 | at=sympl.NetCDFMonitor.store noraise"""
    state = {'time': t, 'wind': p, 'wind_speed': q, 'heat': r}
    monitor = NetCDFMonitor(filename, store_names=('wind', 'heat'), aliases={'heat': 'h', 'wind': 'heat_of_wind'})
    monitor.store(state)
    return monitor._cached_state_dict, state


def want_store_named(p: 'quantity', q: 'quantity', r: 'quantity', t: 'any', filename: 'str'):
    return {t: {'heat_of_wind': p, 'h': r}}, {'time': t, 'wind': p, 'wind_speed': q, 'heat': r}


def got_store_times_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity', t: 'any', u: 'any', filename: 'str'):
    """C15 | at=sympl.NetCDFMonitor.store"""
    monitor = NetCDFMonitor(filename)
    if u == t:
        raise RuntimeError()
    monitor.store({'time': t, 'wind': p})
    monitor.store({'time': u, 'wind': q})
    monitor.store({'time': t, 'heat': r})
    monitor.store({'time': u, 'wind': s})
    return monitor._cached_state_dict


def want_store_times_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity', t: 'any', u: 'any', filename: 'str'):
    if u == t:
        raise RuntimeError()
    return {t: {'wind': p, 'heat': r}, u: {'wind': s}}


def got_combine_states_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity'):
    """C15 C16 | at=sympl._components.netcdf.combine_states"""
    return netcdf.combine_states([{'wind': p, 'heat': q}, {'wind': r, 'heat': s}])


def want_combine_states_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity'):
    return want_combine_states([{'wind': p, 'heat': q}, {'wind': r, 'heat': s}])


# -------------------------------------------------------------------------------- wrappers
def got_frequency_named(component: 'any', interval: 'time', one: 'map', two: 'map', three: 'map', timestep: 'time'):
    """C17 C05:owned | at=sympl.UpdateFrequencyWrapper.__call__ calls=component"""
    if one['time'] is None or two['time'] is None or three['time'] is None:
        raise RuntimeError()
    if two['time'] >= one['time'] + interval or three['time'] < one['time'] + interval:
        raise RuntimeError()
    wrapper = UpdateFrequencyWrapper(component, interval)
    return wrapper(one), wrapper(two), wrapper(three)


def want_frequency_named(component: 'any', interval: 'time', one: 'map', two: 'map', three: 'map', timestep: 'time'):
    if one['time'] is None or two['time'] is None or three['time'] is None:
        raise RuntimeError()
    if two['time'] >= one['time'] + interval or three['time'] < one['time'] + interval:
        raise RuntimeError()
    first = component(one)
    return first, first, component(three)


# ------------------------------------------------------------------------ tendency steppers
class Euler(TendencyStepper):
    def _call(self, state, timestep):
        component = self.prognostic.component_list[0]
        return ({'wind_flux': component.quantity_flux(state, timestep)},
                {'wind': component.quantity_new_wind(state, timestep), 'heat': component.quantity_new_heat(state, timestep)})


def declare(component, u, v):
    component.uses_tracers = False
    component.input_properties = {'heat': {'dims': ['x'], 'units': v}, 'rain': {'dims': ['x', 'y'], 'units': 'm'}}
    component.tendency_properties = {'wind': {'dims': ['*', 'x'], 'units': u + ' s^-1'}, 'heat': {'units': v + ' s^-1'}}
    component.diagnostic_properties = {'wind_flux': {'dims': ['x'], 'units': 'W'}}


def got_euler_named(component: Dynamics, u: 'str', v: 'str', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time'):
    """C25 C09 | at=sympl.TendencyStepper.__call__ noraise inline=sympl.combine_component_properties,sympl._core.combine_properties.combine_properties"""
    declare(component, u, v)
    state = {'wind': p, 'heat': q, 'rain': r}
    stepper = Euler(component, tendencies_in_diagnostics=True, name='euler')
    return stepper(state, timestep), state, stepper.diagnostic_properties, component.diagnostic_properties


def want_euler_named(component: Dynamics, u: 'str', v: 'str', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time'):
    declare(component, u, v)
    state = {'wind': p, 'heat': q, 'rain': r}
    wind, heat = component.quantity_new_wind(state, timestep), component.quantity_new_heat(state, timestep)
    diagnostics = {'wind_flux': component.quantity_flux(state, timestep)}
    inputs = Euler(component).input_properties
    for name, new in (('wind', wind), ('heat', heat)):
        units = inputs[name]['units']
        rate = (new.to_units(units) - state[name].to_units(units)) / timestep.total_seconds()
        rate.attrs['units'] = 's^-1' if units == '' else units + ' s^-1'
        diagnostics[name + '_tendency_from_euler'] = rate
    return ((diagnostics, {'wind': wind, 'heat': heat, 'rain': r}), state,
            {'wind_flux': {'dims': ['x'], 'units': 'W'},
             'wind_tendency_from_euler': {'dims': ['*', 'x'], 'units': u + ' s^-1'},
             'heat_tendency_from_euler': {'dims': ['x'], 'units': v + ' s^-1'}},
            {'wind_flux': {'dims': ['x'], 'units': 'W'}})


def got_constants_called(p: 'quantity', q: 'quantity', r: 'quantity', state: 'map'):
    """C19 | at=sympl.ConstantTendencyComponent noraise"""
    return (ConstantTendencyComponent({'wind': p, 'heat': q}, {'flux': r})(state),
            ConstantDiagnosticComponent({'wind': p})(state))


def want_constants_called(p: 'quantity', q: 'quantity', r: 'quantity', state: 'map'):
    c = ConstantTendencyComponent({'wind': p, 'heat': q}, {'flux': r})
    e = ConstantDiagnosticComponent({'wind': p})
    return tendency_result(c, False, None, state), diagnostic_result(e, state)


def got_constants_options(p: 'quantity', flag: 'bool', name: 'str'):
    """C19 C25 | at=sympl.ConstantTendencyComponent noraise"""
    c = ConstantTendencyComponent({'wind': p}, tendencies_in_diagnostics=flag, name='n' + name)
    e = RelaxationTendencyComponent('heat', 'K', tendencies_in_diagnostics=flag, name='n' + name)
    return c.tendencies_in_diagnostics, c.name, c.diagnostic_properties, e.tendencies_in_diagnostics, e.name, e.diagnostic_properties


def want_constants_options(p: 'quantity', flag: 'bool', name: 'str'):
    wind = {'units': p.attrs['units'], 'dims': p.dims}
    heat = dict(RelaxationTendencyComponent('heat', 'K').tendency_properties['heat'])
    return (flag, 'n' + name, {'wind_tendency_from_n' + name: wind} if flag else {},
            flag, 'n' + name, {'heat_tendency_from_n' + name: heat} if flag else {})


def got_relaxation_called(u: 'str', state: 'map'):
    """C19 | at=sympl.RelaxationTendencyComponent noraise"""
    return RelaxationTendencyComponent('heat', u)(state)


def want_relaxation_called(u: 'str', state: 'map'):
    return tendency_result(RelaxationTendencyComponent('heat', u), False, None, state)


def got_frequency_timestep(component: 'any', interval: 'time', one: 'map', two: 'map', timestep: 'time'):
    """C17 C05:owned | at=sympl.UpdateFrequencyWrapper.__call__ calls=component"""
    if one['time'] is None or two['time'] is None:
        raise RuntimeError()
    wrapper = UpdateFrequencyWrapper(component, interval)
    return wrapper(one, timestep), wrapper(two, timestep=timestep)


def want_frequency_timestep(component: 'any', interval: 'time', one: 'map', two: 'map', timestep: 'time'):
    if one['time'] is None or two['time'] is None:
        raise RuntimeError()
    try:
        first = component(one, timestep)
    except TypeError:
        first = component(one)
    if two['time'] < one['time'] + interval:
        return first, first
    try:
        second = component(two, timestep)
    except TypeError:
        second = component(two)
    return first, second


def got_frequency_passes(component: 'any', interval: 'time', one: 'map', option: 'any'):
    """C17 C05:owned | at=sympl.UpdateFrequencyWrapper.__call__ calls=component"""
    return UpdateFrequencyWrapper(component, interval)(one, option=option), UpdateFrequencyWrapper(component, interval).interesting


def want_frequency_passes(component: 'any', interval: 'time', one: 'map', option: 'any'):
    return component(one, option=option), component.interesting


def got_wrappers_pass_on(component: 'any', stepper: Physics):
    """C18 C05:owned C19 | at=sympl.ScalingWrapper.__getattr__ noraise"""
    return ScalingWrapper(component).interesting, TimeDifferencingWrapper(stepper).interesting


def want_wrappers_pass_on(component: 'any', stepper: Physics):
    return component.interesting, stepper.interesting


class Clashing(TendencyStepper):
    def _call(self, state, timestep):
        component = self.prognostic.component_list[0]
        return ({'heat_tendency_from_' + self.name: component.quantity_flux(state, timestep)},
                {'wind': component.quantity_new_wind(state, timestep), 'heat': component.quantity_new_heat(state, timestep)})


def got_euler_clash(component: Dynamics, u: 'str', v: 'str', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time', flag: 'bool'):
    """C25 | at=sympl.TendencyStepper.__call__ exc=RuntimeError inline=sympl.combine_component_properties,sympl._core.combine_properties.combine_properties"""
    declare(component, u, v)
    return Clashing(component, tendencies_in_diagnostics=flag, name='s')({'wind': p, 'heat': q, 'rain': r}, timestep)


def want_euler_clash(component: Dynamics, u: 'str', v: 'str', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time', flag: 'bool'):
    declare(component, u, v)
    if flag:
        raise RuntimeError()
    return Clashing(component, name='s')({'wind': p, 'heat': q, 'rain': r}, timestep)


def got_stepper_listed(component: Dynamics, other: Mixing, u: 'str', v: 'str'):
    """C09 C06 | at=sympl.TendencyStepper.__init__ noraise"""
    declare(component, u, v)
    declare(other, u, v)
    other.diagnostic_properties = {}
    stepper = Euler([component, other], name='s')
    return stepper.prognostic_list, stepper.input_properties, stepper.output_properties, stepper.diagnostic_properties


def want_stepper_listed(component: Dynamics, other: Mixing, u: 'str', v: 'str'):
    declare(component, u, v)
    declare(other, u, v)
    other.diagnostic_properties = {}
    stepper = Euler(component, other, name='s')
    return (component, other), stepper.input_properties, stepper.output_properties, {'wind_flux': {'dims': ['x'], 'units': 'W'}}


def composite_outputs(a, b, u):
    a.diagnostic_properties = {'rain': {'dims': ['x'], 'units': u}, 'snow': {'units': u}}
    b.diagnostic_properties = {'gust': {'units': u}}


def got_composite_dims_missing(self: DiagnosticComponentComposite, a: Rain, b: Wind, u: 'str'):
    """C07 C03 | at=sympl.DiagnosticComponentComposite exc=InvalidPropertyDictError"""
    composite_outputs(a, b, u)
    self.component_list = (a, b)
    return self.diagnostic_properties


def want_composite_dims_missing(self: DiagnosticComponentComposite, a: Rain, b: Wind, u: 'str'):
    inputs = combine_component_properties((a, b), 'input_properties')
    if 'gust' not in inputs or 'snow' not in inputs:
        raise InvalidPropertyDictError()
    return {'rain': {'dims': ['x'], 'units': u}, 'snow': {'units': u}, 'gust': {'units': u}}


def rain_and_wind(a, b, u):
    a.input_properties = {'rain': {'dims': ['x'], 'units': u}}
    a.diagnostic_properties = {'rain': {'dims': ['x'], 'units': u}, 'snow': {'dims': ['x'], 'units': u}}
    b.input_properties = {'rain': {'dims': ['*', 'x'], 'units': u}, 'gust': {'dims': ['x'], 'units': 'm'}}
    b.diagnostic_properties = {'gust': {'dims': ['x'], 'units': 'm'}}


def got_composite_declares(self: DiagnosticComponentComposite, a: Rain, b: Wind, u: 'str'):
    """C05 C07 | at=sympl.DiagnosticComponentComposite noraise"""
    rain_and_wind(a, b, u)
    self.component_list = (a, b)
    declared = self.diagnostic_properties
    apart = declared is a.diagnostic_properties or declared is b.diagnostic_properties
    return (a.diagnostic_properties, b.diagnostic_properties), declared, apart


def want_composite_declares(self: DiagnosticComponentComposite, a: Rain, b: Wind, u: 'str'):
    rain_and_wind(a, b, u)
    declared = dict(a.diagnostic_properties)
    declared['gust'] = b.diagnostic_properties['gust']
    return (a.diagnostic_properties, b.diagnostic_properties), declared, False


def got_composite_requires(self: DiagnosticComponentComposite, a: Rain, b: Wind, u: 'str'):
    """C05 C10 | at=sympl.DiagnosticComponentComposite noraise inline=sympl.combine_component_properties,sympl._core.combine_properties.combine_properties"""
    rain_and_wind(a, b, u)
    a.uses_tracers = b.uses_tracers = False
    self.component_list = (a, b)
    inputs = self.input_properties
    apart = inputs is a.input_properties or inputs['rain'] is a.input_properties['rain'] or \
        inputs['gust'] is b.input_properties['gust']
    return (a.input_properties, b.input_properties), apart


def want_composite_requires(self: DiagnosticComponentComposite, a: Rain, b: Wind, u: 'str'):
    rain_and_wind(a, b, u)
    return (a.input_properties, b.input_properties), False
