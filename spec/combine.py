"""Combination of declarations, units and states (analysed, never run)."""
from sympl._core import combine_properties as cp, units as un, state as stt, util
from sympl import DataArray, InvalidPropertyDictError, InvalidStateError, SharedKeyError
from sympl import get_tracer_input_properties, units_are_compatible, get_component_aliases
from sympl._core.backend import get_backend


def got_combine_dims(dims1: 'list', dims2: 'list'):
    """C10 | at=sympl._core.combine_properties.combine_dims heap=dims1,dims2"""
    return cp.combine_dims(dims1, dims2)


def want_combine_dims(dims1: 'list', dims2: 'list'):
    if dims1 == dims2:
        return dims1
    named1 = [dim for dim in dims1 if dim != '*']
    named2 = [dim for dim in dims2 if dim != '*']
    if '*' not in dims1:
        for dim in named2:
            if dim not in named1:
                raise InvalidPropertyDictError()
    if '*' not in dims2:
        for dim in named1:
            if dim not in named2:
                raise InvalidPropertyDictError()
    out = []
    if '*' in dims1 and '*' in dims2:
        out.append('*')
    out.extend(named1)
    out.extend(dim for dim in named2 if dim not in named1)
    return out


def declared_dims(name, declared, inputs):
    if 'dims' in declared:
        return declared['dims']
    if name in inputs and 'dims' in inputs[name]:
        return inputs[name]['dims']
    raise InvalidPropertyDictError()


def got_combine(properties: 'list', inputs: 'map:map'):
    """C10 | at=sympl._core.combine_properties.combine_properties inline=sympl._core.combine_properties.combine_properties opaque=sympl._core.combine_properties.combine_dims heap=properties,inputs"""
    return cp.combine_properties(properties, inputs)


def want_combine(properties: 'list', inputs: 'map:map'):
    out = {}
    for declarations in properties:
        for name, declared in declarations.items():
            if name not in out:
                out[name] = {}
                out[name].update(declared)
                if 'dims' not in declared:
                    if name in inputs and 'dims' in inputs[name]:
                        out[name]['dims'] = inputs[name]['dims']
                    else:
                        raise InvalidPropertyDictError()
            elif not units_are_compatible(declared['units'], out[name]['units']):
                raise InvalidPropertyDictError()
            else:
                if 'dims' in declared:
                    dims = declared['dims']
                elif name in inputs and 'dims' in inputs[name]:
                    dims = inputs[name]['dims']
                else:
                    raise InvalidPropertyDictError()
                try:
                    out[name]['dims'] = cp.combine_dims(out[name]['dims'], dims)
                except InvalidPropertyDictError:
                    raise InvalidPropertyDictError()
    return out


def got_combine_components(components: 'list', name: 'str', inputs: 'map:map'):
    """C10 | at=sympl.combine_component_properties inline=sympl.combine_component_properties heap=components,inputs"""
    return cp.combine_component_properties(components, name, inputs)


def want_combine_components(components: 'list', name: 'str', inputs: 'map:map'):
    found = []
    for component in components:
        found.append(getattr(component, name))
        if name == 'input_properties' and getattr(component, 'uses_tracers', False):
            dims = list(component.tracer_dims)
            if 'tracer' not in dims:
                raise InvalidPropertyDictError()
            dims.remove('tracer')
            found.append(get_tracer_input_properties(getattr(component, 'prepend_tracers', ()), dims))
    return cp.combine_properties(found, inputs)


def got_aliases(a: 'any', b: 'any'):
    """C20 C15 | at=sympl.get_component_aliases inline=sympl.get_component_aliases"""
    return util.get_component_aliases(a, b)


def want_aliases(a: 'any', b: 'any'):
    out = {}
    for attribute in ('tendency_properties', 'diagnostic_properties', 'output_properties', 'input_properties'):
        for component in (a, b):
            if hasattr(component, attribute):
                for name, declared in getattr(component, attribute).items():
                    if 'alias' in declared:
                        out[name] = declared['alias']
    return out


def got_to_units(value: 'any', units: 'str'):
    """C06 C01 C04 | at=sympl._core.units.data_array_to_units heap=value"""
    return un.data_array_to_units(value, units)


def want_to_units(value: 'any', units: 'str'):
    if not hasattr(value, 'attrs') or 'units' not in value.attrs:
        raise TypeError()
    if un.unit_registry(value.attrs['units']) != un.unit_registry(units):
        attrs = value.attrs.copy()
        out = un.unit_registry.Quantity(value, value.attrs['units']).to(units).magnitude
        attrs['units'] = units
        out.attrs = attrs
        return out
    return value


def got_convert(value: 'any', old: 'str', new: 'str'):
    """C06 C14 | at=sympl._core.units.from_unit_to_another inline=sympl._core.units.from_unit_to_another"""
    return un.from_unit_to_another(value, old, new)


def want_convert(value: 'any', old: 'str', new: 'str'):
    return (un.unit_registry(old) * value).to(new).magnitude


def got_same_units(a: 'str', b: 'str'):
    """C06 C10 C12 | at=sympl.units_are_same inline=sympl.units_are_same"""
    return un.units_are_same(a, b)


def want_same_units(a: 'str', b: 'str'):
    return un.unit_registry(a) == un.unit_registry(b)


def got_compatible_units(a: 'str', b: 'str'):
    """C03 C10 | at=sympl.units_are_compatible inline=sympl.units_are_compatible"""
    return un.units_are_compatible(a, b)


def want_compatible_units(a: 'str', b: 'str'):
    import pint
    try:
        un.unit_registry(a).to(b)
        return True
    except pint.errors.DimensionalityError:
        return False


def got_valid_unit(unit: 'str'):
    """C14 | at=sympl.is_valid_unit inline=sympl.is_valid_unit"""
    return un.is_valid_unit(unit)


def want_valid_unit(unit: 'str'):
    import pint
    try:
        un.unit_registry(unit.replace('%', 'percent').replace('°', 'degree'))
        return True
    except pint.UndefinedUnitError:
        return False


def got_untouched(old: 'map', new: 'map'):
    """C09 | at=sympl._core.state.copy_untouched_quantities heap=old,new"""
    stt.copy_untouched_quantities(old, new)


def want_untouched(old: 'map', new: 'map'):
    for name in old:
        if name not in new:
            new[name] = old[name]


def got_add_states(a: 'map:quantity', b: 'map:quantity'):
    """C09 C04 | at=sympl._core.state.add heap=a,b"""
    return stt.add(a, b)


def want_add_states(a: 'map:quantity', b: 'map:quantity'):
    out = {}
    if 'time' in a:
        out['time'] = a['time']
    for name in a:
        if name != 'time':
            out[name] = a[name] + b[name]
            out[name].attrs = a[name].attrs
    return out


def got_scale_state(factor: 'num', state: 'map:quantity'):
    """C09 C04 | at=sympl._core.state.multiply heap=state"""
    return stt.multiply(factor, state)


def want_scale_state(factor: 'num', state: 'map:quantity'):
    out = {}
    if 'time' in state:
        out['time'] = state['time']
    for name in state:
        if name != 'time':
            out[name] = factor * state[name]
            out[name].attrs = state[name].attrs
    return out


def got_shared(a: 'map', b: 'map'):
    """C07 C02 | at=sympl._core.util.ensure_no_shared_keys heap=a,b"""
    util.ensure_no_shared_keys(a, b)


def want_shared(a: 'map', b: 'map'):
    for name in a:
        if name in b:
            raise SharedKeyError()


def got_sum_states(a: 'map:quantity', b: 'map:quantity'):
    """C23 C06 C07 C05 | at=sympl._core.util.update_dict_by_adding_another heap=a,b"""
    util.update_dict_by_adding_another(a, b)


def want_sum_states(a: 'map:quantity', b: 'map:quantity'):
    for name in b.keys():
        if name not in a:
            if hasattr(b[name], 'copy'):
                a[name] = b[name].copy()
            else:
                a[name] = b[name]
        elif isinstance(a[name], get_backend().get_container_type()) and \
                isinstance(b[name], get_backend().get_container_type()):
            if 'units' not in a[name].attrs or 'units' not in b[name].attrs:
                raise InvalidStateError()
            try:
                a[name] += b[name].to_units(a[name].attrs['units'])
            except ValueError:
                a[name] = a[name] + b[name].to_units(a[name].attrs['units'])
        else:
            a[name] += b[name]


def got_array_units(self: DataArray, units: 'str'):
    """C06 C01 C04 | at=sympl.DataArray.to_units opaque=sympl._core.units.data_array_to_units heap=self"""
    return DataArray.to_units(self, units)


def want_array_units(self: DataArray, units: 'str'):
    from pint.errors import DimensionalityError
    if 'units' not in self.attrs:
        raise KeyError()
    try:
        return un.data_array_to_units(self, units)
    except DimensionalityError:
        raise ValueError()


def got_sum_any(a: 'map', b: 'map'):
    """C23 C06 C07 C05 | at=sympl._core.util.update_dict_by_adding_another heap=a,b"""
    util.update_dict_by_adding_another(a, b)


def want_sum_any(a: 'map', b: 'map'):
    want_sum_states(a, b)
