"""Required behaviour of the time steppers (analysed, never run)."""
from sympl import (
    TendencyComponent, ImplicitTendencyComponent, ImplicitTendencyComponentComposite,
    AdamsBashforth, Leapfrog, SSPRungeKutta, get_backend)


class Probe(TendencyComponent):
    """Any component: the same quantities at every call, any values."""

    def __call__(self, state):
        tendencies, diagnostics = {}, {}
        for name in self.tendency_properties:
            tendencies[name] = self.tendency(name, state)
        for name in self.diagnostic_properties:
            diagnostics[name] = self.diagnostic(name, state)
        return tendencies, diagnostics


class ImplicitProbe(ImplicitTendencyComponent):

    def __call__(self, state, timestep):
        tendencies, diagnostics = {}, {}
        for name in self.tendency_properties:
            tendencies[name] = self.tendency(name, state, timestep)
        for name in self.diagnostic_properties:
            diagnostics[name] = self.diagnostic(name, state, timestep)
        return tendencies, diagnostics


class QuantityProbe(TendencyComponent):
    """Any component that computes labelled arrays with units."""

    def __call__(self, state):
        tendencies, diagnostics = {}, {}
        for name in self.tendency_properties:
            if name != 'time':
                tendencies[name] = self.quantity_tendency(name, state)
        for name in self.diagnostic_properties:
            diagnostics[name] = self.quantity_diagnostic(name, state)
        return tendencies, diagnostics


def rates(component, state, timestep):
    """tendencies of a state, in the units of that state per second"""
    tendencies, diagnostics = ImplicitTendencyComponentComposite(component)(state, timestep)
    out = {}
    for name in tendencies:
        value = tendencies[name]
        if isinstance(value, get_backend().get_container_type()) and 'units' in value.attrs:
            value = value.to_units(state[name].attrs['units'] + ' s^-1')
        out[name] = value
    return out, diagnostics


def renewed(past, state):
    """past tendencies in the units of a later state"""
    out = []
    for t in past:
        new = {}
        for name in t:
            value = t[name]
            if isinstance(value, get_backend().get_container_type()) and 'units' in value.attrs:
                value = value.to_units(state[name].attrs['units'] + ' s^-1')
            new[name] = value
        out.append(new)
    return out


def euler(state, t, timestep):
    out = dict(state)
    for name in t:
        out[name] = state[name] + timestep.total_seconds() * t[name]
    return out


def got_ab1(component: Probe, state: 'map', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.AdamsBashforth heap=state attrs noraise"""
    stepper = AdamsBashforth(component, order=1)
    return stepper(state, timestep)


def want_ab1(component: Probe, state: 'map', timestep: 'time'):
    t, diagnostics = rates(component, state, timestep)
    return diagnostics, euler(state, t, timestep)


def got_ab_implicit(component: ImplicitProbe, state: 'map', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.AdamsBashforth heap=state attrs noraise"""
    stepper = AdamsBashforth(component)
    return stepper(state, timestep)


def want_ab_implicit(component: ImplicitProbe, state: 'map', timestep: 'time'):
    t, diagnostics = rates(component, state, timestep)
    return diagnostics, euler(state, t, timestep)


def got_ab2(component: Probe, s1: 'map', s2: 'map', s3: 'map', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.AdamsBashforth heap=s1,s2,s3 attrs noraise"""
    stepper = AdamsBashforth(component, order=2)
    return stepper(s1, timestep), stepper(s2, timestep), stepper(s3, timestep)


def step(state, t, timestep, weights, past):
    """state plus timestep times the weighted tendencies, newest first"""
    out = dict(state)
    for name in t:
        total = weights[0] * t[name]
        for i in range(1, len(weights)):
            total = total + weights[i] * past[i - 1][name]
        out[name] = state[name] + timestep.total_seconds() * total
    return out


def want_ab2(component: Probe, s1: 'map', s2: 'map', s3: 'map', timestep: 'time'):
    t1, d1 = rates(component, s1, timestep)
    t2, d2 = rates(component, s2, timestep)
    t3, d3 = rates(component, s3, timestep)
    w = [1.5, -0.5]
    return ((d1, euler(s1, t1, timestep)), (d2, step(s2, t2, timestep, w, renewed([t1], s2))),
            (d3, step(s3, t3, timestep, w, renewed([t2], s3))))


def got_ab3(component: Probe, s1: 'map', s2: 'map', s3: 'map', s4: 'map', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.AdamsBashforth heap=s1,s2,s3,s4 attrs noraise"""
    stepper = AdamsBashforth(component)
    return (stepper(s1, timestep), stepper(s2, timestep), stepper(s3, timestep),
            stepper(s4, timestep))


def want_ab3(component: Probe, s1: 'map', s2: 'map', s3: 'map', s4: 'map', timestep: 'time'):
    t1, d1 = rates(component, s1, timestep)
    t2, d2 = rates(component, s2, timestep)
    t3, d3 = rates(component, s3, timestep)
    t4, d4 = rates(component, s4, timestep)
    w = [23. / 12, -4. / 3, 5. / 12]
    past2 = renewed([t1], s2)
    past3 = renewed([t2] + past2, s3)
    past4 = renewed([t3, past3[0]], s4)
    return ((d1, euler(s1, t1, timestep)), (d2, step(s2, t2, timestep, [1.5, -0.5], past2)),
            (d3, step(s3, t3, timestep, w, past3)),
            (d4, step(s4, t4, timestep, w, past4)))


def want_ab4(component: Probe, s1: 'map', s2: 'map', s3: 'map', s4: 'map', s5: 'map', timestep: 'time'):
    t1, d1 = rates(component, s1, timestep)
    t2, d2 = rates(component, s2, timestep)
    t3, d3 = rates(component, s3, timestep)
    t4, d4 = rates(component, s4, timestep)
    t5, d5 = rates(component, s5, timestep)
    w3 = [23. / 12, -4. / 3, 5. / 12]
    w4 = [55. / 24, -59. / 24, 37. / 24, -9. / 24]
    past2 = renewed([t1], s2)
    past3 = renewed([t2] + past2, s3)
    past4 = renewed([t3] + past3, s4)
    past5 = renewed([t4] + past4[:2], s5)
    return ((d1, euler(s1, t1, timestep)), (d2, step(s2, t2, timestep, [1.5, -0.5], past2)),
            (d3, step(s3, t3, timestep, w3, past3)),
            (d4, step(s4, t4, timestep, w4, past4)),
            (d5, step(s5, t5, timestep, w4, past5)))


def got_ab4_quantities(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', s3: 'map:quantity',
                       s4: 'map:quantity', s5: 'map:quantity', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.AdamsBashforth heap=s1,s2,s3,s4,s5 attrs noraise"""
    stepper = AdamsBashforth(component, order=4)
    return (stepper(s1, timestep), stepper(s2, timestep), stepper(s3, timestep),
            stepper(s4, timestep), stepper(s5, timestep))


def want_ab4_quantities(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', s3: 'map:quantity',
                        s4: 'map:quantity', s5: 'map:quantity', timestep: 'time'):
    return want_ab4(component, s1, s2, s3, s4, s5, timestep)


def got_ab_timestep(component: Probe, s1: 'map', s2: 'map', one: 'time', two: 'time'):
    """C08 | at=sympl.AdamsBashforth noret"""
    stepper = AdamsBashforth(component, order=2)
    stepper(s1, one)
    stepper(s2, two)


def want_ab_timestep(component: Probe, s1: 'map', s2: 'map', one: 'time', two: 'time'):
    stepper = AdamsBashforth(component, order=2)
    stepper(s1, one)
    if one != two:
        raise ValueError()
    stepper(s2, one)


def got_leapfrog(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', s3: 'map:quantity', timestep: 'time'):
    """C08 C09 C06 | at=sympl.Leapfrog attrs noraise"""
    stepper = Leapfrog(component)
    return stepper(s1, timestep), stepper(s2, timestep), stepper(s3, timestep), s1, s2, s3


def want_leapfrog(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', s3: 'map:quantity', timestep: 'time'):
    t1, d1 = rates(component, s1, timestep)
    n1 = euler(s1, t1, timestep)
    n2, f2, d2 = leap(component, s1, s2, timestep, 0.05, 0.5)
    n3, f3, d3 = leap(component, f2, s3, timestep, 0.05, 0.5)
    return (d1, n1), (d2, n2), (d3, n3), s1, f2, f3


def leap(component, old, state, timestep, strength, alpha):
    t, diagnostics = rates(component, state, timestep)
    new, filtered = dict(state), dict(state)
    for name in t:
        before = old[name]
        if 'units' in state[name].attrs:
            before = before.to_units(state[name].attrs['units'])
        leaped = before + 2 * timestep.total_seconds() * t[name]
        influence = strength / 2 * (before - 2 * state[name] + leaped)
        if name in state:
            filtered[name] = state[name] + alpha * influence
        new[name] = leaped + (alpha - 1) * influence
    return new, filtered, diagnostics


def got_leapfrog_options(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', timestep: 'time', nu: 'num', alpha: 'num'):
    """C08 | at=sympl.Leapfrog attrs noraise"""
    stepper = Leapfrog(component, asselin_strength=nu, alpha=alpha)
    stepper(s1, timestep)
    return stepper(s2, timestep), s2


def want_leapfrog_options(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', timestep: 'time', nu: 'num', alpha: 'num'):
    n, f, d = leap(component, s1, s2, timestep, nu, alpha)
    return (d, n), f


def got_leapfrog_timestep(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', one: 'time', two: 'time'):
    """C08 | at=sympl.Leapfrog noret"""
    stepper = Leapfrog(component)
    stepper(s1, one)
    stepper(s2, two)


def want_leapfrog_timestep(component: QuantityProbe, s1: 'map:quantity', s2: 'map:quantity', one: 'time', two: 'time'):
    stepper = Leapfrog(component)
    stepper(s1, one)
    if one != two:
        raise ValueError()
    stepper(s2, one)


def blend(a, first, b, second):
    """weighted mean of two states; what was not stepped is passed on"""
    out = {}
    for name in first:
        if name == 'time' or second[name] is first[name]:
            out[name] = first[name]
        else:
            out[name] = a * first[name] + b * second[name]
            out[name].attrs = first[name].attrs
    return out


def got_rk2(component: QuantityProbe, state: 'map:quantity', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.SSPRungeKutta heap=state noraise"""
    if 'time' not in state:
        raise KeyError()
    return SSPRungeKutta(component, stages=2)(state, timestep)


def want_rk2(component: QuantityProbe, state: 'map:quantity', timestep: 'time'):
    if 'time' not in state:
        raise KeyError()
    t1, diagnostics = rates(component, state, timestep)
    s1 = euler(state, t1, timestep)
    t2, _ = rates(component, s1, timestep)
    s2 = euler(s1, t2, timestep)
    return diagnostics, blend(0.5, state, 0.5, s2)


def got_rk3(component: QuantityProbe, state: 'map:quantity', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.SSPRungeKutta heap=state noraise"""
    if 'time' not in state:
        raise KeyError()
    return SSPRungeKutta(component)(state, timestep)


def want_rk3(component: QuantityProbe, state: 'map:quantity', timestep: 'time'):
    if 'time' not in state:
        raise KeyError()
    t1, diagnostics = rates(component, state, timestep)
    s1 = euler(state, t1, timestep)
    t2, _ = rates(component, s1, timestep)
    s2 = blend(0.75, state, 0.25, euler(s1, t2, timestep))
    t3, _ = rates(component, s2, timestep)
    return diagnostics, blend(1. / 3, state, 2. / 3, euler(s2, t3, timestep))


def got_ab_order(component: QuantityProbe, order: 'any'):
    """C08 | at=sympl.AdamsBashforth.__init__ noret"""
    AdamsBashforth(component, order=order)


def want_ab_order(component: QuantityProbe, order: 'any'):
    if isinstance(order, float) and order.is_integer():
        order = int(order)
    if not isinstance(order, int):
        raise TypeError()
    if order < 1 or order > 4:
        raise ValueError()
    AdamsBashforth(component, order=1)


def got_rk_stages(component: QuantityProbe, stages: 'any'):
    """C08 | at=sympl.SSPRungeKutta.__init__ noret"""
    SSPRungeKutta(component, stages=stages)


def want_rk_stages(component: QuantityProbe, stages: 'any'):
    if stages != 2 and stages != 3:
        raise ValueError()
    SSPRungeKutta(component, stages=2)
