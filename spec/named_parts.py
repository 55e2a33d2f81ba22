"""The requirements of combine.py, tracers.py, dims.py on a few named entries, followed one by one (analysed, never run)."""
from sympl._core import combine_properties as cp, state as stt, util, tracers, get_np_arrays, restore_dataarray, wildcard
from sympl._core import init_np_arrays
from sympl._core.tracers import TracerPacker
from spec.combine import (
    want_combine, want_combine_dims, want_combine_components, want_add_states, want_scale_state, want_untouched, want_sum_states,
    want_sum_any)
from spec.tracers import want_pack, want_unpack, want_unpack_tendency, want_names
from spec.dims import want_wildcard_matches, want_arrays, want_restore, want_raw_lengths, want_initialize


# ------------------------------------------------------------------ declarations
def got_combine_dims_named(a: 'str'):
    """C10 | at=sympl._core.combine_properties.combine_dims"""
    return (cp.combine_dims(['*', 'x', 'y'], ['y', a, '*']), cp.combine_dims(['x', '*'], ['z', 'x']),
            cp.combine_dims(['z', 'x'], ['x', '*']), cp.combine_dims(['x', 'y'], ['y', 'x']))


def want_combine_dims_named(a: 'str'):
    return (want_combine_dims(['*', 'x', 'y'], ['y', a, '*']), want_combine_dims(['x', '*'], ['z', 'x']),
            want_combine_dims(['z', 'x'], ['x', '*']), want_combine_dims(['x', 'y'], ['y', 'x']))


def got_combine_dims_refused(a: 'str'):
    """C10 | at=sympl._core.combine_properties.combine_dims"""
    return cp.combine_dims(['x', 'y'], ['y', a])


def want_combine_dims_refused(a: 'str'):
    return want_combine_dims(['x', 'y'], ['y', a])


def declarations(d, e, f, u, v):
    return [{'wind': {'dims': d, 'units': u}, 'heat': {'units': 'K'}},
            {'heat': {'dims': e, 'units': v}, 'wind_speed': {'dims': d, 'units': v, 'alias': 'w'}},
            {'wind': {'units': v}, 'heat': {'dims': d, 'units': 'K'}}]


def got_combine_named(d: 'list', e: 'list', f: 'list', u: 'str', v: 'str'):
    """C10 | at=sympl._core.combine_properties.combine_properties inline=sympl._core.combine_properties.combine_properties opaque=sympl._core.combine_properties.combine_dims heap=d,e,f"""
    return cp.combine_properties(declarations(d, e, f, u, v), {'wind': {'dims': f, 'units': u}, 'heat': {'dims': f, 'units': 'K'}})


def want_combine_named(d: 'list', e: 'list', f: 'list', u: 'str', v: 'str'):
    return want_combine(declarations(d, e, f, u, v), {'wind': {'dims': f, 'units': u}, 'heat': {'dims': f, 'units': 'K'}})


def got_combine_kept(d: 'list', e: 'list', f: 'list', u: 'str', v: 'str'):
    """C10 C05 C25 | at=sympl._core.combine_properties.combine_properties inline=sympl._core.combine_properties.combine_properties opaque=sympl._core.combine_properties.combine_dims noraise"""
    given = declarations(d, e, f, u, v)
    inputs = {'wind': {'dims': f, 'units': u}, 'heat': {'dims': f, 'units': 'K'}}
    cp.combine_properties(given, inputs)
    return given, inputs


def want_combine_kept(d: 'list', e: 'list', f: 'list', u: 'str', v: 'str'):
    return declarations(d, e, f, u, v), {'wind': {'dims': f, 'units': u}, 'heat': {'dims': f, 'units': 'K'}}


def got_combine_components_named(a: 'any', b: 'any'):
    """C10 | at=sympl.combine_component_properties inline=sympl.combine_component_properties heap=a,b"""
    return cp.combine_component_properties([a, b], 'input_properties'), cp.combine_component_properties([b, a], 'output_properties', {})


def want_combine_components_named(a: 'any', b: 'any'):
    return want_combine_components([a, b], 'input_properties', None), want_combine_components([b, a], 'output_properties', {})


# ------------------------------------------------------------------------ states
def got_states_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity', x: 'num', t: 'time'):
    """C08 C06 C07 | at=sympl._core.state.add"""
    one, two = {'wind': p, 'heat': q, 'time': t}, {'wind': r, 'heat': s, 'time': t}
    return stt.add(one, two), stt.multiply(x, one), one, two


def want_states_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity', x: 'num', t: 'time'):
    one, two = {'wind': p, 'heat': q, 'time': t}, {'wind': r, 'heat': s, 'time': t}
    return want_add_states(one, two), want_scale_state(x, one), one, two


def got_untouched_named(p: 'any', q: 'any', r: 'any'):
    """C09 | at=sympl._core.state.copy_untouched_quantities"""
    new = {'wind': r}
    stt.copy_untouched_quantities({'wind': p, 'heat': q}, new)
    return new


def want_untouched_named(p: 'any', q: 'any', r: 'any'):
    return {'wind': r, 'heat': q}


def got_sum_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity'):
    """C06 C07 | at=sympl._core.util.update_dict_by_adding_another"""
    one, two = {'wind': p, 'heat': q}, {'wind': r, 'flux': s}
    util.update_dict_by_adding_another(one, two)
    return one, two


def want_sum_named(p: 'quantity', q: 'quantity', r: 'quantity', s: 'quantity'):
    one, two = {'wind': p, 'heat': q}, {'wind': r, 'flux': s}
    want_sum_states(one, two)
    return one, two


# ------------------------------------------------------------------------ tracers
def registered(u, v):
    tracers._tracer_unit_dict.clear()
    tracers._tracer_names[:] = []
    tracers._tracer_unit_dict['vapor'] = u
    tracers._tracer_unit_dict['ozone'] = v
    tracers._tracer_names.append('vapor')
    tracers._tracer_names.append('ozone')


def got_names_named(component: 'any', u: 'str', v: 'str', w: 'str'):
    """C11 C12 | at=sympl.TracerPacker.tracer_names inline=sympl._core.tracers.TracerPacker noraise"""
    registered(u, v)
    return TracerPacker(component, ('x', 'tracer', 'z'), prepend_tracers=(('cloud', w), ('ozone', v))).tracer_names


def want_names_named(component: 'any', u: 'str', v: 'str', w: 'str'):
    return ('cloud', 'ozone', 'vapor')


def got_pack_named(self: TracerPacker, u: 'str', v: 'str', w: 'str', state: 'map'):
    """C11 | at=sympl.TracerPacker.pack heap=state inline=sympl._core.tracers.TracerPacker"""
    registered(u, v)
    self._prepend_tracers = (('cloud', w), ('ozone', v))
    self._tracer_dims, self._tracer_quantity_dims = ('x', 'tracer', 'z'), ('x', 'z')
    self._tracer_index = 1
    return TracerPacker.pack(self, state)


def want_pack_named(self: TracerPacker, u: 'str', v: 'str', w: 'str', state: 'map'):
    registered(u, v)
    self._prepend_tracers = (('cloud', w), ('ozone', v))
    self._tracer_dims, self._tracer_quantity_dims = ('x', 'tracer', 'z'), ('x', 'z')
    return want_pack(self, state)


def got_unpack_named(self: TracerPacker, u: 'str', v: 'str', w: 'str', array: 'any', state: 'map'):
    """C11 C06 | at=sympl.TracerPacker.unpack heap=state inline=sympl._core.tracers.TracerPacker"""
    registered(u, v)
    self._prepend_tracers = (('cloud', w), ('ozone', v))
    self._tracer_dims, self._tracer_quantity_dims = ('x', 'tracer', 'z'), ('x', 'z')
    self._tracer_index = 1
    return TracerPacker.unpack(self, array, state), TracerPacker.unpack(self, array, state, multiply_unit='s^-1')


def want_unpack_named(self: TracerPacker, u: 'str', v: 'str', w: 'str', array: 'any', state: 'map'):
    registered(u, v)
    self._prepend_tracers = (('cloud', w), ('ozone', v))
    self._tracer_dims, self._tracer_quantity_dims = ('x', 'tracer', 'z'), ('x', 'z')
    return want_unpack(self, array, state), want_unpack_tendency(self, array, state)


# --------------------------------------------------------------------- dimensions
def declared_inputs():
    return {'wind': {'dims': ['*', 'mid'], 'units': 'm s^-1', 'alias': 'u'}, 'heat': {'dims': ['mid', '*'], 'units': 'K'}}


def declared_outputs():
    return {'wind': {'units': 'm s^-1'}, 'flux': {'dims': ['interface', '*'], 'units': 'W', 'alias': 'F'},
            'count': {'dims': ['mid'], 'units': '', 'dtype': 'i4'}}


def got_wildcard_named(state: 'map'):
    """C01 C02 C20 | at=sympl._core.wildcard.get_wildcard_matches_and_dim_lengths inline=sympl._core.wildcard.get_wildcard_matches_and_dim_lengths heap=state"""
    return wildcard.get_wildcard_matches_and_dim_lengths(state, declared_inputs())


def want_wildcard_named(state: 'map'):
    return want_wildcard_matches(state, declared_inputs())


def got_arrays_named(state: 'map'):
    """C01 C20 | at=sympl.get_numpy_arrays_with_properties heap=state inline=sympl.get_numpy_arrays_with_properties"""
    return get_np_arrays.get_numpy_arrays_with_properties(state, declared_inputs())


def want_arrays_named(state: 'map'):
    return want_arrays(state, declared_inputs())


def got_restore_named(u: 'any', f: 'any', n: 'any', state: 'map'):
    """C02 C20 | at=sympl.restore_data_arrays_with_properties inline=sympl.restore_data_arrays_with_properties heap=state opaque=sympl._core.wildcard.fill_dims_wildcard,sympl._core.wildcard.expand_array_wildcard_dims"""
    return restore_dataarray.restore_data_arrays_with_properties(
        {'u': u, 'F': f, 'count': n}, declared_outputs(), state, declared_inputs())


def want_restore_named(u: 'any', f: 'any', n: 'any', state: 'map'):
    return want_restore({'u': u, 'F': f, 'count': n}, declared_outputs(), state, declared_inputs(), [])


def got_initialize_named(u: 'any', h: 'any'):
    """C02 | at=sympl._core.init_np_arrays.initialize_numpy_arrays_with_properties inline=sympl._core.init_np_arrays.initialize_numpy_arrays_with_properties"""
    return init_np_arrays.initialize_numpy_arrays_with_properties(declared_outputs(), {'u': u, 'heat': h}, declared_inputs())


def want_initialize_named(u: 'any', h: 'any'):
    return want_initialize(declared_outputs(), {'u': u, 'heat': h}, declared_inputs())


def got_raw_lengths_named(u: 'any', h: 'any'):
    """C02 C01 | at=sympl._core.init_np_arrays.get_dim_lengths_from_raw_input"""
    return init_np_arrays.get_dim_lengths_from_raw_input(
        {'u': u, 'heat': h}, {'wind': {'dims': ['x', 'mid'], 'units': 'm', 'alias': 'u'}, 'heat': {'dims': ['mid'], 'units': 'K'}})


def want_raw_lengths_named(u: 'any', h: 'any'):
    return want_raw_lengths(
        {'u': u, 'heat': h}, {'wind': {'dims': ['x', 'mid'], 'units': 'm', 'alias': 'u'}, 'heat': {'dims': ['mid'], 'units': 'K'}})
