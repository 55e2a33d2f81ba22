"""Time steppers on states with a few named quantities: the requirements of timesteppers.py followed name by name
(analysed, never run)."""
from sympl import TendencyComponent, AdamsBashforth, Leapfrog, SSPRungeKutta
from spec.timesteppers import rates, renewed, euler, step, leap, blend


class Weather(TendencyComponent):
    """computes tendencies of two of the quantities"""

    def __call__(self, state):
        return ({'wind': self.quantity_wind(state), 'heat': self.quantity_heat(state)},
                {'flux': self.quantity_flux(state)})


def weather(t, p, q, r):
    return {'time': t, 'wind': p, 'heat': q, 'rain': r}


def got_ab3_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', p2: 'quantity', q2: 'quantity',
                  p3: 'quantity', q3: 'quantity', p4: 'quantity', q4: 'quantity', timestep: 'time'):
    """C08 C09 C06 | at=sympl.AdamsBashforth attrs noraise"""
    stepper = AdamsBashforth(component)
    return (stepper(weather(t, p, q, r), timestep), stepper(weather(t, p2, q2, r), timestep),
            stepper(weather(t, p3, q3, r), timestep), stepper(weather(t, p4, q4, r), timestep))


def want_ab3_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', p2: 'quantity', q2: 'quantity',
                   p3: 'quantity', q3: 'quantity', p4: 'quantity', q4: 'quantity', timestep: 'time'):
    s1, s2, s3, s4 = weather(t, p, q, r), weather(t, p2, q2, r), weather(t, p3, q3, r), weather(t, p4, q4, r)
    t1, d1 = rates(component, s1, timestep)
    t2, d2 = rates(component, s2, timestep)
    t3, d3 = rates(component, s3, timestep)
    t4, d4 = rates(component, s4, timestep)
    w = [23. / 12, -4. / 3, 5. / 12]
    past2 = renewed([t1], s2)
    past3 = renewed([t2] + past2, s3)
    past4 = renewed([t3, past3[0]], s4)
    return ((d1, euler(s1, t1, timestep)), (d2, step(s2, t2, timestep, [1.5, -0.5], past2)),
            (d3, step(s3, t3, timestep, w, past3)),
            (d4, step(s4, t4, timestep, w, past4)))


def got_ab4_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', p2: 'quantity', q2: 'quantity',
                  p3: 'quantity', q3: 'quantity', p4: 'quantity', q4: 'quantity', p5: 'quantity', timestep: 'time'):
    """C08 C09 C06 | at=sympl.AdamsBashforth attrs noraise"""
    stepper = AdamsBashforth(component, order=4)
    stepper(weather(t, p, q, r), timestep)
    stepper(weather(t, p2, q2, r), timestep)
    return (stepper(weather(t, p3, q3, r), timestep), stepper(weather(t, p4, q4, r), timestep),
            stepper(weather(t, p5, q, r), timestep))


def want_ab4_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', p2: 'quantity', q2: 'quantity',
                   p3: 'quantity', q3: 'quantity', p4: 'quantity', q4: 'quantity', p5: 'quantity', timestep: 'time'):
    s1, s2, s3, s4 = weather(t, p, q, r), weather(t, p2, q2, r), weather(t, p3, q3, r), weather(t, p4, q4, r)
    s5 = weather(t, p5, q, r)
    t1, d1 = rates(component, s1, timestep)
    t2, d2 = rates(component, s2, timestep)
    t3, d3 = rates(component, s3, timestep)
    t4, d4 = rates(component, s4, timestep)
    t5, d5 = rates(component, s5, timestep)
    w3 = [23. / 12, -4. / 3, 5. / 12]
    w4 = [55. / 24, -59. / 24, 37. / 24, -9. / 24]
    past3 = renewed([t2] + renewed([t1], s2), s3)
    past4 = renewed([t3] + past3, s4)
    past5 = renewed([t4] + past4[:2], s5)
    return ((d3, step(s3, t3, timestep, w3, past3)), (d4, step(s4, t4, timestep, w4, past4)),
            (d5, step(s5, t5, timestep, w4, past5)))


def got_leapfrog_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', p2: 'quantity', q2: 'quantity',
                       p3: 'quantity', q3: 'quantity', timestep: 'time'):
    """C08 C09 C06 | at=sympl.Leapfrog attrs noraise"""
    stepper = Leapfrog(component)
    s1, s2, s3 = weather(t, p, q, r), weather(t, p2, q2, r), weather(t, p3, q3, r)
    return stepper(s1, timestep), stepper(s2, timestep), stepper(s3, timestep), s1, s2, s3


def want_leapfrog_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', p2: 'quantity', q2: 'quantity',
                        p3: 'quantity', q3: 'quantity', timestep: 'time'):
    s1, s2, s3 = weather(t, p, q, r), weather(t, p2, q2, r), weather(t, p3, q3, r)
    t1, d1 = rates(component, s1, timestep)
    n1 = euler(s1, t1, timestep)
    n2, f2, d2 = leap(component, s1, s2, timestep, 0.05, 0.5)
    n3, f3, d3 = leap(component, f2, s3, timestep, 0.05, 0.5)
    return (d1, n1), (d2, n2), (d3, n3), s1, f2, f3


def got_rk3_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.SSPRungeKutta noraise"""
    state = weather(t, p, q, r)
    return SSPRungeKutta(component)(state, timestep), state


def want_rk3_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time'):
    state = weather(t, p, q, r)
    t1, diagnostics = rates(component, state, timestep)
    s1 = euler(state, t1, timestep)
    t2, _ = rates(component, s1, timestep)
    s2 = blend(0.75, state, 0.25, euler(s1, t2, timestep))
    t3, _ = rates(component, s2, timestep)
    return (diagnostics, blend(1. / 3, state, 2. / 3, euler(s2, t3, timestep))), weather(t, p, q, r)


def got_rk2_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time'):
    """C08 C09 C06 C04 | at=sympl.SSPRungeKutta noraise"""
    state = weather(t, p, q, r)
    return SSPRungeKutta(component, stages=2)(state, timestep), state


def want_rk2_named(component: Weather, t: 'any', p: 'quantity', q: 'quantity', r: 'quantity', timestep: 'time'):
    state = weather(t, p, q, r)
    t1, diagnostics = rates(component, state, timestep)
    s1 = euler(state, t1, timestep)
    t2, _ = rates(component, s1, timestep)
    return (diagnostics, blend(0.5, state, 0.5, euler(s1, t2, timestep))), weather(t, p, q, r)
