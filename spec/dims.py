"""Dimensions, wildcards, array extraction and restoration (analysed, never run)."""
import numpy as np
import sympl
from sympl._core import wildcard, restore_dataarray, init_np_arrays, get_np_arrays, util
from sympl._core.backend import get_backend, DataArrayBackend
from sympl import InvalidStateError, InvalidPropertyDictError, DataArray
from sympl._core.wildcard import get_wildcard_matches_and_dim_lengths
from sympl._core.restore_dataarray import extract_output_dims_properties
from sympl._core.tracers import get_tracer_names


def got_wildcard_matches(state: 'map', properties: 'map:map'):
    """C23 C01 C02 C20 | at=sympl._core.wildcard.get_wildcard_matches_and_dim_lengths inline=sympl._core.wildcard.get_wildcard_matches_and_dim_lengths"""
    return wildcard.get_wildcard_matches_and_dim_lengths(state, properties)


def want_wildcard_matches(state: 'map', properties: 'map:map'):
    matched = []
    lengths = {}
    backend = get_backend()
    for name, declared in properties.items():
        if 'dims' not in declared:
            raise InvalidPropertyDictError()
        if 'units' not in declared:
            raise InvalidPropertyDictError()
        dims = backend.get_dims(state[name])
        shape = backend.get_shape(state[name])
        for dim, length in zip(dims, shape):
            if dim not in lengths:
                lengths[dim] = length
            elif length != lengths[dim]:
                raise InvalidStateError()
        extra = [dim for dim in dims if dim not in declared['dims']]
        if extra and '*' not in declared['dims']:
            raise InvalidStateError()
        matched.extend([dim for dim in extra if dim not in matched])
    for declared in properties.values():
        if 'dims' in declared and '*' in declared['dims']:
            return tuple(matched), lengths
    return None, lengths


def got_flatten(array: 'any', i_start: 'num', i_end: 'num'):
    """C01 C20 C04 | at=sympl._core.wildcard.flatten_wildcard_dims heap=array inline=sympl._core.wildcard.flatten_wildcard_dims"""
    return wildcard.flatten_wildcard_dims(array, i_start, i_end)


def want_flatten(array: 'any', i_start: 'num', i_end: 'num'):
    if i_end > len(array.shape):
        raise ValueError()
    if i_start < 0:
        raise ValueError()
    if i_start > i_end:
        raise ValueError()
    if i_start == i_end:
        shape = []
        shape.extend(array.shape)
        shape.insert(i_start, 1)
    else:
        shape = []
        product = 1
        for i, length in enumerate(array.shape):
            if i_start <= i < i_end:
                product *= length
            else:
                shape.append(length)
            if i == i_end - 1:
                shape.append(product)
    return array.reshape(shape)


def got_fill(dims: 'list', lengths: 'map', matched: 'seq'):
    """C02 C20 | at=sympl._core.wildcard.fill_dims_wildcard inline=sympl._core.wildcard.fill_dims_wildcard"""
    return wildcard.fill_dims_wildcard(dims, lengths, matched)


def want_fill(dims: 'list', lengths: 'map', matched: 'seq'):
    at = dims.index('*')
    shape = []
    names = []
    for i, dim in enumerate(dims):
        if i == at:
            shape.extend([lengths[n] for n in matched])
            names.extend(matched)
        else:
            shape.append(lengths[dim])
            names.append(dim)
    return names, shape


def got_expand(array: 'any', shape: 'list', name: 'str', dims: 'list'):
    """C02 C20 | at=sympl._core.wildcard.expand_array_wildcard_dims inline=sympl._core.wildcard.expand_array_wildcard_dims"""
    return wildcard.expand_array_wildcard_dims(array, shape, name, dims)


def want_expand(array: 'any', shape: 'list', name: 'str', dims: 'list'):
    try:
        return np.reshape(array, shape)
    except ValueError:
        raise InvalidPropertyDictError()


def got_alias_or_name(name: 'str', outputs: 'map:map', inputs: 'map:map'):
    """C02 | at=sympl._core.restore_dataarray.get_alias_or_name"""
    return restore_dataarray.get_alias_or_name(name, outputs, inputs)


def want_alias_or_name(name: 'str', outputs: 'map:map', inputs: 'map:map'):
    if 'alias' in outputs[name]:
        return outputs[name]['alias']
    if name in inputs and 'alias' in inputs[name]:
        return inputs[name]['alias']
    return name


def got_check_shape(dims: 'list', array: 'any', name: 'str', lengths: 'map'):
    """C02 C20 | at=sympl._core.restore_dataarray.check_array_shape"""
    return restore_dataarray.check_array_shape(dims, array, name, lengths)


def want_check_shape(dims: 'list', array: 'any', name: 'str', lengths: 'map'):
    if len(dims) != len(array.shape):
        raise InvalidPropertyDictError()
    for dim, length in zip(dims, array.shape):
        if dim in lengths and lengths[dim] != length:
            raise InvalidPropertyDictError()


def got_output_dims(outputs: 'map:map', inputs: 'map:map', ignore: 'list'):
    """C02 C03 | at=sympl._core.restore_dataarray.extract_output_dims_properties inline=sympl._core.restore_dataarray.extract_output_dims_properties"""
    return restore_dataarray.extract_output_dims_properties(outputs, inputs, ignore)


def want_output_dims(outputs: 'map:map', inputs: 'map:map', ignore: 'list'):
    out = {}
    for name, declared in outputs.items():
        if name not in ignore:
            if 'dims' in declared:
                out[name] = declared['dims']
            elif name not in inputs:
                raise InvalidPropertyDictError()
            elif 'dims' not in inputs[name]:
                raise InvalidPropertyDictError()
            else:
                out[name] = inputs[name]['dims']
    return out


def got_raw_lengths(arrays: 'map', inputs: 'map:map'):
    """C02 C01 | at=sympl._core.init_np_arrays.get_dim_lengths_from_raw_input"""
    return init_np_arrays.get_dim_lengths_from_raw_input(arrays, inputs)


def want_raw_lengths(arrays: 'map', inputs: 'map:map'):
    lengths = {}
    for name, declared in inputs.items():
        if not declared.get('tracer', False):
            key = name
            if 'alias' in declared:
                key = declared['alias']
            for i, dim in enumerate(declared['dims']):
                if dim in lengths:
                    if arrays[key].shape[i] != lengths[dim]:
                        raise InvalidStateError()
                else:
                    lengths[dim] = arrays[key].shape[i]
    return lengths


def got_initialize(outputs: 'map:map', arrays: 'map', inputs: 'map:map'):
    """C02 | at=sympl._core.init_np_arrays.initialize_numpy_arrays_with_properties inline=sympl._core.init_np_arrays.initialize_numpy_arrays_with_properties opaque=sympl._core.init_np_arrays.get_dim_lengths_from_raw_input"""
    return init_np_arrays.initialize_numpy_arrays_with_properties(outputs, arrays, inputs)


def want_initialize(outputs: 'map:map', arrays: 'map', inputs: 'map:map'):
    lengths = init_np_arrays.get_dim_lengths_from_raw_input(arrays, inputs)
    out = {}
    for name, dims in extract_output_dims_properties(outputs, inputs, []).items():
        shape = []
        for dim in dims:
            shape.append(lengths[dim])
        out[name] = np.zeros(shape, dtype=outputs[name].get('dtype', np.float64))
    return out


def got_initialize_tracers(outputs: 'map:map', arrays: 'map', inputs: 'map:map', tracer_dims: 'seq', first: 'seq'):
    """C02 C11 | at=sympl._core.init_np_arrays.initialize_numpy_arrays_with_properties inline=sympl._core.init_np_arrays.initialize_numpy_arrays_with_properties opaque=sympl._core.init_np_arrays.get_dim_lengths_from_raw_input"""
    return init_np_arrays.initialize_numpy_arrays_with_properties(
        outputs, arrays, inputs, tracer_dims=tracer_dims, prepend_tracers=first)


def want_initialize_tracers(outputs: 'map:map', arrays: 'map', inputs: 'map:map', tracer_dims: 'seq', first: 'seq'):
    lengths = init_np_arrays.get_dim_lengths_from_raw_input(arrays, inputs)
    declared = extract_output_dims_properties(outputs, inputs, [])
    tracers = list(get_tracer_names())
    for entry in first:
        if entry[0] not in tracers:
            tracers.append(entry[0])
    out = {}
    for name, dims in declared.items():
        if name not in tracers:
            shape = []
            for dim in dims:
                shape.append(lengths[dim])
            out[name] = np.zeros(shape, dtype=outputs[name].get('dtype', np.float64))
    lengths['tracer'] = len(tracers)
    shape = []
    for dim in tracer_dims:
        shape.append(lengths[dim])
    out['tracers'] = np.zeros(shape, dtype=np.float64)
    return out


def got_arrays(state: 'map', properties: 'map:map'):
    """C23 C01 C20 C04 | at=sympl.get_numpy_arrays_with_properties heap=state,properties inline=sympl.get_numpy_arrays_with_properties"""
    return get_np_arrays.get_numpy_arrays_with_properties(state, properties)


def want_arrays(state: 'map', properties: 'map:map'):
    out = {}
    backend = get_backend()
    matched, lengths = get_wildcard_matches_and_dim_lengths(state, properties)
    for name, declared in properties.items():
        dims = []
        dims.extend(declared['dims'])
        if '*' in dims:
            at = dims.index('*')
            dims[at:at + 1] = matched
            array = wildcard.flatten_wildcard_dims(
                backend.get_array(state[name], name, declared['units'], dims, lengths), at, at + len(matched))
        else:
            array = backend.get_array(state[name], name, declared['units'], dims, lengths)
        out[declared['alias'] if 'alias' in declared else name] = array
    return out


def got_restore(raw: 'map', outputs: 'map:map', state: 'map', inputs: 'map:map', ignore: 'list'):
    """C23 C02 C20 C04 | at=sympl.restore_data_arrays_with_properties inline=sympl.restore_data_arrays_with_properties heap=raw,state,inputs,outputs opaque=sympl._core.wildcard.fill_dims_wildcard,sympl._core.wildcard.expand_array_wildcard_dims,sympl._core.restore_dataarray.get_alias_or_name"""
    return restore_dataarray.restore_data_arrays_with_properties(raw, outputs, state, inputs, ignore_names=ignore)


def want_restore(raw: 'map', outputs: 'map:map', state: 'map', inputs: 'map:map', ignore: 'list'):
    raw = raw.copy()
    matched, lengths = get_wildcard_matches_and_dim_lengths(state, inputs)
    restore_dataarray.ensure_values_are_arrays(raw)
    out = {}
    for name, dims in extract_output_dims_properties(outputs, inputs, ignore).items():
        if name not in ignore:
            key = restore_dataarray.get_alias_or_name(name, outputs, inputs)
            if '*' in dims:
                for dim, length in zip(dims, raw[key].shape):
                    if dim not in lengths and dim != '*':
                        lengths[dim] = length
                names, shape = wildcard.fill_dims_wildcard(dims, lengths, matched)
                array = wildcard.expand_array_wildcard_dims(raw[key], shape, name, dims)
            else:
                restore_dataarray.check_array_shape(dims, raw[key], name, lengths)
                names = dims
                array = raw[key]
            out[name] = get_backend().create_quantity(
                array, name=name, dims=names, units=outputs[name]['units'], reference_state=state)
    return out


def got_asarrays(arrays: 'map'):
    """C02 | at=sympl._core.restore_dataarray.ensure_values_are_arrays heap=arrays"""
    restore_dataarray.ensure_values_are_arrays(arrays)


def want_asarrays(arrays: 'map'):
    for name, value in arrays.items():
        if not isinstance(value, np.ndarray):
            arrays[name] = np.asarray(value)


def got_backend_array(value: 'any', name: 'str', units: 'str', dims: 'list', lengths: 'map'):
    """C01 C20 C06 C04 | at=sympl.DataArrayBackend.get_array heap=value,dims,lengths opaque=sympl.DataArrayBackend._get_numpy_array"""
    return DataArrayBackend().get_array(value, name, units, dims, lengths)


def want_backend_array(value: 'any', name: 'str', units: 'str', dims: 'list', lengths: 'map'):
    if 'units' not in value.attrs:
        raise InvalidStateError()
    try:
        converted = value.to_units(units)
    except ValueError:
        raise InvalidStateError()
    return DataArrayBackend()._get_numpy_array(converted, dims, lengths)


def got_backend_create(data: 'any', name: 'str', units: 'str', dims: 'list'):
    """C02 C20 | at=sympl.DataArrayBackend.create_quantity"""
    return DataArrayBackend().create_quantity(data, name, units, dims)


def want_backend_create(data: 'any', name: 'str', units: 'str', dims: 'list'):
    return DataArray(data, dims=dims, attrs={'units': units})


def got_backend_describe(value: 'any'):
    """C20 C23 | at=sympl.DataArrayBackend.get_dims"""
    backend = DataArrayBackend()
    return backend.get_dims(value), backend.get_shape(value), backend.get_container_type()


def want_backend_describe(value: 'any'):
    return value.dims, value.shape, DataArray


def got_backend_order(array: 'any', dims: 'list', lengths: 'map'):
    """C01 C20 C04 | at=sympl.DataArrayBackend._get_numpy_array heap=array,dims,lengths"""
    return DataArrayBackend()._get_numpy_array(array, dims, lengths)


def want_backend_order(array: 'any', dims: 'list', lengths: 'map'):
    values = array.values
    if len(values.shape) == 0 and len(dims) == 0:
        return values
    current = list(array.dims)
    if current == dims:
        return values
    missing = [dim for dim in dims if dim not in current]
    if missing:
        values = values.reshape((1,) * len(missing) + values.shape)
        current = missing[::-1] + current
    target = list(dims) + [dim for dim in current if dim not in dims]
    if current != target:
        position = {dim: i for i, dim in enumerate(current)}
        try:
            axes = [position[dim] for dim in target]
        except KeyError:
            raise ValueError()
        values = values.transpose(axes)
    if not missing:
        return values
    shape = [lengths.get(name, 1) for name in dims] + list(values.shape[len(dims):])
    if shape == list(values.shape):
        return values
    out = np.empty(shape, dtype=values.dtype)
    out[:] = values
    return out


def got_arrays_order(array: 'any', dims: 'list', lengths: 'map'):
    """C20 | at=sympl._core.get_np_arrays.get_numpy_array heap=array,dims,lengths"""
    return get_np_arrays.get_numpy_array(array, dims, lengths)


def want_arrays_order(array: 'any', dims: 'list', lengths: 'map'):
    values = array.values
    if len(values.shape) == 0 and len(dims) == 0:
        return values
    current = list(array.dims)
    if current == dims:
        return values
    missing = [dim for dim in dims if dim not in current]
    if missing:
        values = values.reshape((1,) * len(missing) + values.shape)
        current = missing[::-1] + current
    target = list(dims) + [dim for dim in current if dim not in dims]
    if current != target:
        position = {dim: i for i, dim in enumerate(current)}
        try:
            axes = [position[dim] for dim in target]
        except KeyError:
            raise ValueError()
        values = values.transpose(axes)
    if not missing:
        return values
    shape = [lengths.get(name, 1) for name in dims] + list(values.shape[len(dims):])
    if shape == list(values.shape):
        return values
    out = np.empty(shape, dtype=values.dtype)
    out[:] = values
    return out
