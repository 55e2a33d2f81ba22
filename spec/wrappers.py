"""Required behaviour of the component wrappers (analysed, never run)."""
from sympl import (
    Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent,
    ScalingWrapper, UpdateFrequencyWrapper, TimeDifferencingWrapper)


def only(component, cls):
    """the four kinds of component exclude one another"""
    for other in (DiagnosticComponent, TendencyComponent, ImplicitTendencyComponent, Stepper):
        if other is not cls and isinstance(component, other):
            raise RuntimeError()
    if not isinstance(component, cls):
        raise RuntimeError()


def scaled(quantities, factors):
    out = dict(quantities)
    for name in factors:
        out[name] = quantities[name] * float(factors[name])
        out[name].attrs = quantities[name].attrs
    return out


def scaled_inputs(component, factors, state):
    out = {}
    if 'time' in state:
        out['time'] = state['time']
    for name in component.input_properties:
        if name in factors:
            out[name] = state[name] * float(factors[name])
            out[name].attrs = state[name].attrs
        else:
            out[name] = state[name]
    return out


def known(names, properties):
    for name in names:
        if name not in properties:
            raise ValueError()


def known_factors(component, attribute, factors):
    if not hasattr(component, attribute):
        raise TypeError()
    known(factors, getattr(component, attribute))


def got_scaling_init(component: 'any', a: 'map', b: 'map', c: 'map', d: 'map'):
    """C24 C18 | at=sympl.ScalingWrapper.__init__ noret"""
    ScalingWrapper(component, input_scale_factors=a, output_scale_factors=b,
                   tendency_scale_factors=c, diagnostic_scale_factors=d)


def want_scaling_init(component: 'any', a: 'map', b: 'map', c: 'map', d: 'map'):
    if not isinstance(component, (DiagnosticComponent, TendencyComponent, ImplicitTendencyComponent, Stepper)):
        raise TypeError()
    known(a, component.input_properties)
    known_factors(component, 'diagnostic_properties', d)
    known_factors(component, 'output_properties', b)
    known_factors(component, 'tendency_properties', c)


def got_scaling_diagnostic(component: 'any', a: 'map', d: 'map', state: 'map'):
    """C18 C05:owned C04 | at=sympl.ScalingWrapper.__call__ heap=state,a,d calls=component"""
    only(component, DiagnosticComponent)
    return ScalingWrapper(component, input_scale_factors=a, diagnostic_scale_factors=d)(state)


def want_scaling_diagnostic(component: 'any', a: 'map', d: 'map', state: 'map'):
    only(component, DiagnosticComponent)
    known(a, component.input_properties)
    known_factors(component, 'diagnostic_properties', d)
    return scaled(component(scaled_inputs(component, a, state)), d)


def got_scaling_tendency(component: 'any', a: 'map', c: 'map', d: 'map', state: 'map'):
    """C18 C05:owned C04 | at=sympl.ScalingWrapper.__call__ heap=state,a,c,d calls=component"""
    only(component, TendencyComponent)
    return ScalingWrapper(component, input_scale_factors=a, tendency_scale_factors=c,
                          diagnostic_scale_factors=d)(state)


def want_scaling_tendency(component: 'any', a: 'map', c: 'map', d: 'map', state: 'map'):
    only(component, TendencyComponent)
    known(a, component.input_properties)
    known_factors(component, 'diagnostic_properties', d)
    known_factors(component, 'tendency_properties', c)
    tendencies, diagnostics = component(scaled_inputs(component, a, state))
    return scaled(tendencies, c), scaled(diagnostics, d)


def got_scaling_implicit(component: 'any', a: 'map', c: 'map', d: 'map',
                         state: 'map', timestep: 'time'):
    """C18 C05:owned C04 | at=sympl.ScalingWrapper.__call__ heap=state,a,c,d calls=component"""
    only(component, ImplicitTendencyComponent)
    return ScalingWrapper(component, input_scale_factors=a, tendency_scale_factors=c,
                          diagnostic_scale_factors=d)(state, timestep)


def want_scaling_implicit(component: 'any', a: 'map', c: 'map', d: 'map',
                          state: 'map', timestep: 'time'):
    only(component, ImplicitTendencyComponent)
    known(a, component.input_properties)
    known_factors(component, 'diagnostic_properties', d)
    known_factors(component, 'tendency_properties', c)
    tendencies, diagnostics = component(scaled_inputs(component, a, state), timestep)
    return scaled(tendencies, c), scaled(diagnostics, d)


def got_scaling_stepper(component: 'any', a: 'map', b: 'map', d: 'map', state: 'map', timestep: 'time'):
    """C18 C05:owned C04 | at=sympl.ScalingWrapper.__call__ heap=state,a,b,d calls=component"""
    only(component, Stepper)
    return ScalingWrapper(component, input_scale_factors=a, output_scale_factors=b,
                          diagnostic_scale_factors=d)(state, timestep)


def want_scaling_stepper(component: 'any', a: 'map', b: 'map', d: 'map', state: 'map', timestep: 'time'):
    only(component, Stepper)
    known(a, component.input_properties)
    known_factors(component, 'diagnostic_properties', d)
    known_factors(component, 'output_properties', b)
    diagnostics, output = component(scaled_inputs(component, a, state), timestep)
    return scaled(diagnostics, d), scaled(output, b)


def got_scaling_named(component: 'any', p: 'num', q: 'num', r: 'num', t: 'num', u: 'num', state: 'map', timestep: 'time'):
    """C18 C05:owned | at=sympl.ScalingWrapper.__call__ heap=state calls=component"""
    only(component, Stepper)
    return ScalingWrapper(component, input_scale_factors={'wind': p, 'wind_speed': q}, output_scale_factors={'wind': r},
                          diagnostic_scale_factors={'heat_flux': t, 'heat': u})(state, timestep)


def want_scaling_named(component: 'any', p: 'num', q: 'num', r: 'num', t: 'num', u: 'num', state: 'map', timestep: 'time'):
    only(component, Stepper)
    a, b, d = {'wind': p, 'wind_speed': q}, {'wind': r}, {'heat_flux': t, 'heat': u}
    known(a, component.input_properties)
    known_factors(component, 'diagnostic_properties', d)
    known_factors(component, 'output_properties', b)
    diagnostics, output = component(scaled_inputs(component, a, state), timestep)
    return scaled(diagnostics, d), scaled(output, b)


def got_scaling_named_tendency(component: 'any', p: 'num', q: 'num', r: 'num', t: 'num', u: 'num', state: 'map'):
    """C18 C05:owned | at=sympl.ScalingWrapper.__call__ heap=state calls=component"""
    only(component, TendencyComponent)
    return ScalingWrapper(component, input_scale_factors={'wind': p, 'wind_speed': q}, tendency_scale_factors={'wind': r},
                          diagnostic_scale_factors={'heat_flux': t, 'heat': u})(state)


def want_scaling_named_tendency(component: 'any', p: 'num', q: 'num', r: 'num', t: 'num', u: 'num', state: 'map'):
    only(component, TendencyComponent)
    a, c, d = {'wind': p, 'wind_speed': q}, {'wind': r}, {'heat_flux': t, 'heat': u}
    known(a, component.input_properties)
    known_factors(component, 'diagnostic_properties', d)
    known_factors(component, 'tendency_properties', c)
    tendencies, diagnostics = component(scaled_inputs(component, a, state))
    return scaled(tendencies, c), scaled(diagnostics, d)


def got_scaling_default(component: 'any', state: 'map'):
    """C18 C05:owned | at=sympl.ScalingWrapper.__call__ heap=state calls=component"""
    only(component, TendencyComponent)
    return ScalingWrapper(component)(state)


def want_scaling_default(component: 'any', state: 'map'):
    only(component, TendencyComponent)
    tendencies, diagnostics = component(scaled_inputs(component, {}, state))
    return tendencies, diagnostics


def got_scaling_needs_timestep(component: 'any', state: 'map'):
    """C18 C05:owned | at=sympl.ScalingWrapper.__call__ calls=component"""
    only(component, Stepper)
    return ScalingWrapper(component)(state)


def want_scaling_needs_timestep(component: 'any', state: 'map'):
    only(component, Stepper)
    raise TypeError()


def got_scaling_needs_timestep_implicit(component: 'any', state: 'map'):
    """C18 C05:owned | at=sympl.ScalingWrapper.__call__ calls=component"""
    only(component, ImplicitTendencyComponent)
    return ScalingWrapper(component)(state)


def want_scaling_needs_timestep_implicit(component: 'any', state: 'map'):
    only(component, ImplicitTendencyComponent)
    raise TypeError()


# --- UpdateFrequencyWrapper ----------------------------------------------------
def got_frequency_first(component: 'any', interval: 'time', state: 'map'):
    """C17 C05:owned | at=sympl.UpdateFrequencyWrapper.__call__ heap=state calls=component"""
    return UpdateFrequencyWrapper(component, interval)(state)


def want_frequency_first(component: 'any', interval: 'time', state: 'map'):
    return component(state)


def got_frequency_two(component: 'any', interval: 'time', one: 'map', two: 'map'):
    """C17 C05:owned | at=sympl.UpdateFrequencyWrapper.__call__ heap=one,two calls=component"""
    if one['time'] is None or two['time'] is None:
        raise ValueError()
    wrapper = UpdateFrequencyWrapper(component, interval)
    return wrapper(one), wrapper(two)


def want_frequency_two(component: 'any', interval: 'time', one: 'map', two: 'map'):
    if one['time'] is None or two['time'] is None:
        raise ValueError()
    first = component(one)
    second = first
    if two['time'] >= one['time'] + interval:
        second = component(two)
    return first, second


def got_frequency_three(component: 'any', interval: 'time', one: 'map', two: 'map', three: 'map'):
    """C17 C05:owned | at=sympl.UpdateFrequencyWrapper.__call__ heap=one,two,three calls=component"""
    if one['time'] is None or two['time'] is None:
        raise ValueError()
    wrapper = UpdateFrequencyWrapper(component, interval)
    return wrapper(one), wrapper(two), wrapper(three)


def want_frequency_three(component: 'any', interval: 'time', one: 'map', two: 'map', three: 'map'):
    if one['time'] is None or two['time'] is None:
        raise ValueError()
    first = component(one)
    last = one['time']
    second = first
    if two['time'] >= last + interval:
        second = component(two)
        last = two['time']
    third = second
    if three['time'] >= last + interval:
        third = component(three)
    return first, second, third
