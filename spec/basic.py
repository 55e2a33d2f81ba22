"""Required behaviour of the ready-made components and of datetime (analysed, never run)."""
from datetime import datetime as real_datetime
import cftime
from sympl import (
    Stepper, TendencyComponent, DiagnosticComponent, ImplicitTendencyComponent, DataArray,
    ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent,
    TimeDifferencingWrapper, datetime, DependencyError, get_backend)
from sympl._core.units import unit_registry as ureg


def declared(quantities):
    out = {}
    for name in quantities:
        out[name] = {'dims': quantities[name].dims, 'units': quantities[name].attrs['units']}
    return out


def values(quantities):
    out = {}
    for name in quantities:
        out[name] = quantities[name].values
    return out


def got_constant_tendency(t: 'map', d: 'map', state: 'map'):
    """C19 | at=sympl.ConstantTendencyComponent heap=state,t,d noraise"""
    c = ConstantTendencyComponent(t, d)
    return (c.input_properties, c.tendency_properties, c.diagnostic_properties,
            c.array_call(state), c.array_call({}))


def want_constant_tendency(t: 'map', d: 'map', state: 'map'):
    return {}, declared(t), declared(d), (values(t), values(d)), (values(t), values(d))


def got_constant_tendency_only(t: 'map', state: 'map'):
    """C19 | at=sympl.ConstantTendencyComponent heap=state,t noraise"""
    c = ConstantTendencyComponent(t)
    return (c.input_properties, c.tendency_properties, c.diagnostic_properties,
            c.array_call(state))


def want_constant_tendency_only(t: 'map', state: 'map'):
    return {}, declared(t), {}, (values(t), {})


def got_constant_diagnostic(d: 'map', state: 'map'):
    """C19 | at=sympl.ConstantDiagnosticComponent heap=state,d noraise"""
    c = ConstantDiagnosticComponent(d)
    return c.input_properties, c.diagnostic_properties, c.array_call(state), c.array_call({})


def want_constant_diagnostic(d: 'map', state: 'map'):
    return {}, declared(d), values(d), values(d)


def got_constant_later(t: 'map', d: 'map', name: 'str', value: 'any'):
    """C19 | at=sympl.ConstantTendencyComponent noraise"""
    c = ConstantTendencyComponent(t, d)
    e = ConstantDiagnosticComponent(d)
    t[name] = value
    d[name] = value
    return c.array_call({}), e.array_call({})


def want_constant_later(t: 'map', d: 'map', name: 'str', value: 'any'):
    return (values(t), values(d)), values(d)


def got_relaxation(name: 'str', units: 'str', state: 'map'):
    """C19 | at=sympl.RelaxationTendencyComponent heap=state"""
    c = RelaxationTendencyComponent(name, units)
    return c.array_call(state)


def want_relaxation(name: 'str', units: 'str', state: 'map'):
    RelaxationTendencyComponent(name, units)
    value = state[name]
    equilibrium = state['equilibrium_' + name]
    timescale = state[name + '_relaxation_timescale']
    return {name: (equilibrium - value) / timescale}, {}


def got_relaxation_properties(name: 'str', units: 'str'):
    """C19 | at=sympl.RelaxationTendencyComponent noraise"""
    c = RelaxationTendencyComponent(name, units)
    return c.input_properties, c.tendency_properties, c.diagnostic_properties


def want_relaxation_properties(name: 'str', units: 'str'):
    inputs = {
        name: {'dims': ['*'], 'units': units},
        'equilibrium_' + name: {'dims': ['*'], 'units': units},
        name + '_relaxation_timescale': {'dims': ['*'], 'units': 's'}}
    return inputs, {name: {'dims': ['*'], 'units': str(ureg(units) / ureg('s'))}}, {}


def got_differencing(stepper: 'any', state: 'map', timestep: 'time'):
    """C23 C19 C04 C06 C05 | at=sympl.TimeDifferencingWrapper.__call__ heap=state calls=stepper attrs"""
    return TimeDifferencingWrapper(stepper)(state, timestep)


def want_differencing(stepper: 'any', state: 'map', timestep: 'time'):
    diagnostics, new = stepper(state, timestep)
    tendencies = {}
    for name in new:
        if not isinstance(new[name], get_backend().get_container_type()):
            if name != 'time':
                raise ValueError()
        elif name in stepper.output_properties:
            if name not in state:
                raise RuntimeError()
            units = new[name].attrs['units']
            rate = (new[name] - state[name].to_units(units)) / timestep.total_seconds()
            rate.attrs['units'] = 's^-1' if units == '' else units + ' s^-1'
            tendencies[name] = rate.to_units(stepper.output_properties[name]['units'] + ' s^-1')
    return tendencies, diagnostics


def got_differencing_properties(stepper: Stepper):
    """C19 C05 | at=sympl.TimeDifferencingWrapper"""
    w = TimeDifferencingWrapper(stepper)
    return (w.input_properties, w.tendency_properties, w.diagnostic_properties,
            stepper.output_properties)


def want_differencing_properties(stepper: Stepper):
    tendency = {}
    for name in stepper.output_properties:
        tendency[name] = dict(stepper.output_properties[name])
        tendency[name]['units'] = stepper.output_properties[name]['units'] + ' s^-1'
    return (stepper.input_properties, tendency, stepper.diagnostic_properties,
            stepper.output_properties)


def got_datetime(y: 'num', mo: 'num', d: 'num', h: 'num', mi: 'num', s: 'num', us: 'num',
                 tz: 'any', calendar: 'str'):
    """C22 | at=sympl.datetime inline=sympl.datetime"""
    return datetime(y, mo, d, h, mi, s, us, tzinfo=tz, calendar=calendar)


def want_datetime(y: 'num', mo: 'num', d: 'num', h: 'num', mi: 'num', s: 'num', us: 'num',
                  tz: 'any', calendar: 'str'):
    fields = dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s, microsecond=us)
    name = calendar.lower()
    if name == 'proleptic_gregorian':
        return real_datetime(tzinfo=tz, **fields)
    if tz is not None:
        raise ValueError()
    if name in ('all_leap', '366_day'):
        return cftime.DatetimeAllLeap(**fields)
    if name in ('no_leap', 'noleap', '365_day'):
        return cftime.DatetimeNoLeap(**fields)
    if name == '360_day':
        return cftime.Datetime360Day(**fields)
    if name == 'julian':
        return cftime.DatetimeJulian(**fields)
    if name == 'gregorian':
        return cftime.DatetimeGregorian(**fields)
    raise ValueError()


def got_datetime_default(y: 'num', mo: 'num', d: 'num', tz: 'any'):
    """C22 | at=sympl.datetime inline=sympl.datetime"""
    return datetime(y, mo, d, tzinfo=tz)


def want_datetime_default(y: 'num', mo: 'num', d: 'num', tz: 'any'):
    return real_datetime(year=y, month=mo, day=d, hour=0, minute=0, second=0, microsecond=0, tzinfo=tz)
