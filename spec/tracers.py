"""The tracer registry and the packing of tracers (analysed, never run)."""
import numpy as np
from sympl._core import tracers
from sympl._core.tracers import TracerPacker, get_tracer_input_properties
from sympl import InvalidPropertyDictError, units_are_same
from sympl import get_numpy_arrays_with_properties, restore_data_arrays_with_properties


def got_register(name: 'str', units: 'str'):
    """C12 C11 | at=sympl.register_tracer glob=_core.tracers._tracer_unit_dict,_core.tracers._tracer_names calls=.ensure_tracer_not_in_outputs"""
    tracers.register_tracer(name, units)


def want_register(name: 'str', units: 'str'):
    if name in tracers._tracer_unit_dict and not units_are_same(tracers._tracer_unit_dict[name], units):
        raise ValueError()
    for packer in tracers._packers:
        packer.ensure_tracer_not_in_outputs(name, units)
    tracers._tracer_unit_dict[name] = units
    if name not in tracers._tracer_names:
        tracers._tracer_names.append(name)


def got_register_refused(name: 'str', units: 'str'):
    """C24 C12 | at=sympl.register_tracer glob=_core.tracers._tracer_unit_dict,_core.tracers._tracer_names"""
    try:
        tracers.register_tracer(name, units)
    except ValueError:
        pass


def want_register_refused(name: 'str', units: 'str'):
    try:
        if name in tracers._tracer_unit_dict and not units_are_same(tracers._tracer_unit_dict[name], units):
            return
        for packer in tracers._packers:
            packer.ensure_tracer_not_in_outputs(name, units)
    except ValueError:
        return
    tracers._tracer_unit_dict[name] = units
    if name not in tracers._tracer_names:
        tracers._tracer_names.append(name)


def got_reset():
    """C12 | at=sympl.reset_tracers glob=_core.tracers._tracer_unit_dict,_core.tracers._tracer_names"""
    tracers.reset_tracers()


def want_reset():
    tracers._tracer_unit_dict.clear()
    del tracers._tracer_names[:]


def got_reset_packers():
    """C12 | at=sympl.reset_packers glob=_core.tracers._packers"""
    tracers.reset_packers()


def want_reset_packers():
    tracers._packers.clear()


def got_registered():
    """C12 C11 | at=sympl.get_tracer_unit_dict inline=sympl.get_tracer_unit_dict,sympl.get_tracer_names"""
    units = tracers.get_tracer_unit_dict()
    units['added'] = 'by the caller'
    return tracers.get_tracer_unit_dict(), tracers.get_tracer_names()


def want_registered():
    return dict(tracers._tracer_unit_dict), tuple(tracers._tracer_names)


def got_tracer_inputs(first: 'seq', dims: 'seq'):
    """C11 C12 C10 | at=sympl.get_tracer_input_properties inline=sympl.get_tracer_input_properties"""
    return tracers.get_tracer_input_properties(first, dims)


def want_tracer_inputs(first: 'seq', dims: 'seq'):
    own = list(dims)
    if 'tracer' in own:
        own.remove('tracer')
    units = tracers.get_tracer_unit_dict()
    units.update(dict(first))
    out = {}
    for name, unit in units.items():
        out[name] = {'units': unit, 'dims': own}
    return out


def got_quantity_dims(dims: 'seq'):
    """C11 | at=sympl._core.tracers.get_quantity_dims inline=sympl._core.tracers.get_quantity_dims"""
    return tracers.get_quantity_dims(dims)


def want_quantity_dims(dims: 'seq'):
    if 'tracer' not in dims:
        raise ValueError()
    out = list(dims)
    out.remove('tracer')
    return tuple(out)


def got_packer(component: 'any', dims: 'seq', first: 'seq'):
    """C11 C12 | at=sympl.TracerPacker.__init__ inline=sympl._core.tracers.TracerPacker,sympl._core.tracers.get_quantity_dims"""
    packer = TracerPacker(component, dims, prepend_tracers=first)
    return packer._tracer_index, packer.component, packer in tracers._packers


def refuse(component, name):
    if hasattr(component, 'tendency_properties'):
        if name in component.tendency_properties:
            raise InvalidPropertyDictError()
    elif hasattr(component, 'output_properties'):
        if name in component.output_properties:
            raise InvalidPropertyDictError()


def want_packer(component: 'any', dims: 'seq', first: 'seq'):
    if 'tracer' not in dims:
        raise ValueError()
    if not hasattr(component, 'tendency_properties') and not hasattr(component, 'output_properties'):
        raise TypeError()
    for name, units in first or ():
        if name not in tracers._tracer_unit_dict:
            refuse(component, name)
    for name, units in tracers._tracer_unit_dict.items():
        refuse(component, name)
    return tuple(dims).index('tracer'), component, True


def got_refused(self: TracerPacker, name: 'str', units: 'str'):
    """C12 | at=sympl.TracerPacker.ensure_tracer_not_in_outputs inline=sympl._core.tracers.TracerPacker"""
    TracerPacker.ensure_tracer_not_in_outputs(self, name, units)


def want_refused(self: TracerPacker, name: 'str', units: 'str'):
    refuse(self.component, name)


def names_of(first):
    names = []
    for name, units in first:
        names.append(name)
    for name in tracers._tracer_names:
        if name not in names:
            names.append(name)
    return tuple(names)


def got_names(component: 'any', dims: 'seq', first: 'seq'):
    """C11 C12 | at=sympl.TracerPacker.tracer_names inline=sympl._core.tracers.TracerPacker noraise"""
    return TracerPacker(component, dims, prepend_tracers=first).tracer_names


def want_names(component: 'any', dims: 'seq', first: 'seq'):
    return names_of(first or ())


def got_pack(self: TracerPacker, state: 'map'):
    """C11 C04 | at=sympl.TracerPacker.pack heap=state inline=sympl._core.tracers.TracerPacker"""
    return TracerPacker.pack(self, state)


def want_pack(self: TracerPacker, state: 'map'):
    declared = get_tracer_input_properties(self._prepend_tracers, self._tracer_quantity_dims)
    raw = get_numpy_arrays_with_properties(state, declared)
    names = names_of(self._prepend_tracers)
    at = self._tracer_dims.index('tracer')
    if len(names) == 0:
        shape = [0 for dim in self._tracer_dims]
    else:
        shape = list(raw[names[0]].shape)
        shape.insert(at, len(names))
    array = np.empty(shape, dtype=np.float64)
    for i, name in enumerate(names):
        where = [slice(0, d) for d in shape]
        where[at] = i
        array[tuple(where)] = raw[name]
    return array


def got_unpack(self: TracerPacker, array: 'any', state: 'map'):
    """C11 C04 | at=sympl.TracerPacker.unpack heap=state inline=sympl._core.tracers.TracerPacker"""
    return TracerPacker.unpack(self, array, state)


def want_unpack(self: TracerPacker, array: 'any', state: 'map'):
    return unpacked(self, array, state, '')


def unpacked(self, array, state, unit):
    declared = get_tracer_input_properties(self._prepend_tracers, self._tracer_quantity_dims)
    at = self._tracer_dims.index('tracer')
    raw = {}
    for i, name in enumerate(names_of(self._prepend_tracers)):
        where = [slice(0, d) for d in array.shape]
        where[at] = i
        raw[name] = array[tuple(where)]
    out = {}
    for name, properties in declared.items():
        out[name] = properties.copy()
        if unit:
            out[name]['units'] = '{} {}'.format(out[name]['units'], unit)
    return restore_data_arrays_with_properties(raw, out, state, declared)


def got_unpack_tendency(self: TracerPacker, array: 'any', state: 'map'):
    """C11 C06 | at=sympl.TracerPacker.unpack inline=sympl._core.tracers.TracerPacker"""
    return TracerPacker.unpack(self, array, state, multiply_unit='s^-1')


def want_unpack_tendency(self: TracerPacker, array: 'any', state: 'map'):
    return unpacked(self, array, state, 's^-1')


def got_packer_inputs(self: TracerPacker, units: 'map', inputs: 'map:map'):
    """C11 | at=sympl.TracerPacker.register_tracers inline=sympl._core.tracers.TracerPacker heap=inputs"""
    TracerPacker.register_tracers(self, units, inputs)


def want_packer_inputs(self: TracerPacker, units: 'map', inputs: 'map:map'):
    for name, unit in units.items():
        if name not in inputs:
            inputs[name] = {'dims': self._tracer_quantity_dims, 'units': unit, 'tracer': True}
