"""Required behaviour of the monitors that write files (analysed, never run)."""
import os
from datetime import timedelta
import netCDF4 as nc4
import numpy as np
import xarray as xr
from six import string_types
from sympl import NetCDFMonitor, RestartMonitor, DataArray, InvalidStateError, DependencyError
from sympl._components import netcdf
from sympl._core.units import from_unit_to_another
from sympl._core.util import same_list, datetime64_to_datetime


# -------------------------------------------------------------- restart files
def got_restart_store(self: RestartMonitor, state: 'map'):
    """C16 C04 | at=sympl.RestartMonitor.store opaque=sympl.NetCDFMonitor.store,sympl.NetCDFMonitor.write,sympl.NetCDFMonitor.__init__ calls=os.replace,os.rename,os.remove,os.unlink,shutil.move,shutil.copy,shutil.copyfile,sympl._components.netcdf.NetCDFMonitor.__init__,sympl._components.netcdf.NetCDFMonitor.store,sympl._components.netcdf.NetCDFMonitor.write ordered heap=state"""
    self.store(state)


def want_restart_store(self: RestartMonitor, state: 'map'):
    new = self._filename + '.new'
    if os.path.isfile(new):
        raise IOError()
    monitor = NetCDFMonitor(new)
    monitor.store(state)
    monitor.write()
    os.replace(new, self._filename)


def got_restart_load(self: RestartMonitor):
    """C16 | at=sympl.RestartMonitor.load opaque=sympl._core.util.datetime64_to_datetime"""
    return self.load()


def want_restart_load(self: RestartMonitor):
    dataset = xr.open_dataset(self._filename)
    state = {}
    for name, value in dataset.data_vars.items():
        state[name] = DataArray(value[0, :])
    state['time'] = datetime64_to_datetime(dataset['time'][0].values)
    return state


# ------------------------------------------------------------- NetCDF monitor
def renamed(aliases, variables):
    """the variables under the names the aliases give them"""
    for long_name in aliases:
        for name in tuple(variables):
            if long_name in name:
                new_name = name.replace(long_name, aliases[long_name])
                if len(new_name) == 0:
                    raise ValueError()
                value = variables.pop(name)
                variables[new_name] = value
    return variables


def got_monitor(filename: 'str', units: 'str', aliases: 'map', write: 'any'):
    """C15 | at=sympl.NetCDFMonitor.__init__ heap=aliases"""
    monitor = NetCDFMonitor(filename, units, None, write, aliases)
    return monitor._filename, monitor._time_units, monitor._aliases, monitor._write_on_store, RestartMonitor(filename)._filename


def want_monitor(filename: 'str', units: 'str', aliases: 'map', write: 'any'):
    if nc4 is None:
        raise DependencyError()
    for long_name, short_name in aliases.items():
        if not isinstance(long_name, string_types):
            raise TypeError()
        elif not isinstance(short_name, string_types):
            raise TypeError()
    return filename, units, aliases, write, filename


def got_monitor_defaults(filename: 'str'):
    """C15 | at=sympl.NetCDFMonitor.__init__"""
    monitor = NetCDFMonitor(filename)
    return monitor._time_units, monitor._write_on_store


def want_monitor_defaults(filename: 'str'):
    return 'seconds', False


def got_store_refused(state: 'map', filename: 'str', aliases: 'map:str'):
    """C24 C15 | at=sympl.NetCDFMonitor.store exc=ValueError noret"""
    monitor = NetCDFMonitor(filename, aliases=aliases)
    monitor.store(state)


def want_store_refused(state: 'map', filename: 'str', aliases: 'map:str'):
    for name in state:
        if len(name) == 0:
            raise ValueError()
    renamed(aliases, dict(state))


def got_store_all(state: 'map', filename: 'str'):
    """C15 C16 C04 | at=sympl.NetCDFMonitor.store heap=state"""
    monitor = NetCDFMonitor(filename)
    monitor.store(state)
    return monitor._cached_state_dict


def want_store_all(state: 'map', filename: 'str'):
    variables = dict(state)
    for name in variables:
        if len(name) == 0:
            raise ValueError()
    variables.pop('time')
    return {state['time']: variables}


def got_store_selected(state: 'map', filename: 'str', names: 'list'):
    """C15 C04 | at=sympl.NetCDFMonitor.store heap=state,names"""
    monitor = NetCDFMonitor(filename, store_names=names)
    monitor.store(state)
    return monitor._cached_state_dict


def want_store_selected(state: 'map', filename: 'str', names: 'list'):
    variables = {}
    wanted = ['time'] + list(names)
    for name in state:
        if name in wanted:
            variables[name] = state[name]
    for name in variables:
        if len(name) == 0:
            raise ValueError()
    variables.pop('time')
    return {state['time']: variables}


def got_store_aliases(state: 'map', filename: 'str', aliases: 'map:str'):
    """C15 C04 | at=sympl.NetCDFMonitor.store heap=state,aliases noraise"""
    monitor = NetCDFMonitor(filename, aliases=aliases)
    monitor.store(state)
    return monitor._cached_state_dict


def want_store_aliases(state: 'map', filename: 'str', aliases: 'map:str'):
    variables = renamed(aliases, dict(state))
    variables.pop('time')
    return {state['time']: variables}


def got_store_twice(first: 'map', second: 'map', filename: 'str'):
    """C15 C04 | at=sympl.NetCDFMonitor.store heap=first,second noraise"""
    monitor = NetCDFMonitor(filename)
    monitor.store(first)
    monitor.store(second)
    return monitor._cached_state_dict


def want_store_twice(first: 'map', second: 'map', filename: 'str'):
    one, two = dict(first), dict(second)
    one.pop('time')
    two.pop('time')
    cache = {first['time']: one}
    if second['time'] == first['time']:
        one.update(two)
    else:
        cache[second['time']] = two
    return cache


def got_ordered(self: NetCDFMonitor):
    """C15 | at=sympl.NetCDFMonitor._get_ordered_times_and_states"""
    return self._get_ordered_times_and_states()


def want_ordered(self: NetCDFMonitor):
    return zip(*sorted(self._cached_state_dict.items(), key=lambda x: x[0]))


def got_same_keys(self: NetCDFMonitor, keys: 'list'):
    """C15 | at=sympl.NetCDFMonitor._ensure_cached_states_have_same_keys opaque=sympl._core.util.same_list"""
    self._ensure_cached_states_have_same_keys(keys)


def want_same_keys(self: NetCDFMonitor, keys: 'list'):
    if len(self._cached_state_dict) == 0:
        return
    for state in self._cached_state_dict.values():
        if not same_list(list(state.keys()), list(keys)):
            raise InvalidStateError()


def got_same_keys_first(self: NetCDFMonitor):
    """C15 | at=sympl.NetCDFMonitor._ensure_cached_states_have_same_keys opaque=sympl._core.util.same_list"""
    self._ensure_cached_states_have_same_keys()


def want_same_keys_first(self: NetCDFMonitor):
    if len(self._cached_state_dict) == 0:
        return
    first = tuple(self._cached_state_dict.values())[0]
    for state in self._cached_state_dict.values():
        if not same_list(list(state.keys()), list(first.keys())):
            raise InvalidStateError()


def got_keys_of_file(self: NetCDFMonitor, dataset: 'any'):
    """C15 | at=sympl.NetCDFMonitor._ensure_cached_state_keys_compatible_with_dataset opaque=sympl.NetCDFMonitor._ensure_cached_states_have_same_keys calls=sympl._components.netcdf.NetCDFMonitor._ensure_cached_states_have_same_keys"""
    self._ensure_cached_state_keys_compatible_with_dataset(dataset)


def want_keys_of_file(self: NetCDFMonitor, dataset: 'any'):
    keys = list(dataset.variables.keys())
    if 'time' in keys:
        keys.remove('time')
    if len(keys) > 0:
        self._ensure_cached_states_have_same_keys(keys)
    else:
        self._ensure_cached_states_have_same_keys()


def got_combine_states(states: 'list'):
    """C15 C16 C04 | at=sympl._components.netcdf.combine_states heap=states calls=!mutate"""
    return netcdf.combine_states(states)


def want_combine_states(states: 'list'):
    out = {}
    for name, value in states[0].items():
        out[name] = DataArray(np.zeros((len(states),) + value.shape, dtype=value.values.dtype),
                              dims=('time',) + value.dims, attrs=value.attrs)
    for i, state in enumerate(states):
        for name in state.keys():
            out[name][i, :] = state[name][:]
    return out


def got_append_times(times: 'list', dataset: 'any', units: 'str'):
    """C15 C16 | at=sympl._components.netcdf.append_times_to_dataset calls=!mutate noret"""
    netcdf.append_times_to_dataset(times, dataset, units)


def want_append_times(times: 'list', dataset: 'any', units: 'str'):
    start = dataset.dimensions['time'].size
    stop = start + len(times)
    if isinstance(times[0], timedelta):
        seconds = []
        for time in times:
            seconds.append(time.total_seconds())
        dataset.variables['time'][start:stop] = from_unit_to_another(np.array(seconds), 'seconds', units)[:]
    else:
        dataset.variables['time'][start:stop] = nc4.date2num(
            times, dataset.variables['time'].units, calendar='proleptic_gregorian')


def got_variable_check(variable: 'any', name: 'str', data: 'any'):
    """C15 | at=sympl._components.netcdf.ensure_variable_is_compatible"""
    netcdf.ensure_variable_is_compatible(variable, name, data)


def want_variable_check(variable: 'any', name: 'str', data: 'any'):
    if variable.dimensions != data.dims:
        raise IOError()
    for key, value in data.attrs.items():
        if key not in variable.ncattrs():
            raise InvalidStateError()
        elif value != variable.getncattr(key):
            raise InvalidStateError()


def got_dimension(dataset: 'any', name: 'str', length: 'any'):
    """C15 C16 | at=sympl._components.netcdf.ensure_dimension_exists calls=.createDimension"""
    netcdf.ensure_dimension_exists(dataset, name, length)


def want_dimension(dataset: 'any', name: 'str', length: 'any'):
    if name in dataset.dimensions:
        if length is None:
            if not dataset.dimensions[name].isunlimited():
                raise IOError()
        elif length != dataset.dimensions[name].size:
            raise IOError()
    else:
        dataset.createDimension(name, length)


def got_variable(dataset: 'any', name: 'str', data: 'any'):
    """C15 C16 | at=sympl._components.netcdf.create_variable opaque=sympl._components.netcdf.ensure_dimension_exists calls=sympl._components.netcdf.ensure_dimension_exists,.createVariable,.setncattr ordered"""
    netcdf.create_variable(dataset, name, data)


def want_variable(dataset: 'any', name: 'str', data: 'any'):
    if not isinstance(data, xr.DataArray):
        raise TypeError()
    for i in range(len(data.dims)):
        try:
            if i == 0:
                netcdf.ensure_dimension_exists(dataset, data.dims[i], None)
            else:
                netcdf.ensure_dimension_exists(dataset, data.dims[i], data.values.shape[i])
        except IOError:
            raise IOError()
    dataset.createVariable(name, data.values.dtype, data.dims)
    for key, value in data.attrs.items():
        dataset.variables[name].setncattr(key, value)


def got_ensure_variable(dataset: 'any', name: 'str', data: 'any'):
    """C15 C16 | at=sympl._components.netcdf.ensure_variable_exists opaque=sympl._components.netcdf.create_variable,sympl._components.netcdf.ensure_variable_is_compatible calls=sympl._components.netcdf.create_variable,sympl._components.netcdf.ensure_variable_is_compatible"""
    netcdf.ensure_variable_exists(dataset, name, data)


def want_ensure_variable(dataset: 'any', name: 'str', data: 'any'):
    if name not in dataset.variables:
        netcdf.create_variable(dataset, name, data)
    else:
        netcdf.ensure_variable_is_compatible(dataset.variables[name], name, data)


def got_time_axis(self: NetCDFMonitor, dataset: 'any', time: 'any'):
    """C15 C16 | at=sympl.NetCDFMonitor._ensure_time_exists opaque=sympl._components.netcdf.ensure_dimension_exists calls=sympl._components.netcdf.ensure_dimension_exists,.createVariable,.setncattr ordered"""
    self._ensure_time_exists(dataset, time)


def want_time_axis(self: NetCDFMonitor, dataset: 'any', time: 'any'):
    netcdf.ensure_dimension_exists(dataset, 'time', None)
    if 'time' not in dataset.variables:
        dataset.createVariable('time', np.int64, ('time',))
        if isinstance(time, timedelta):
            dataset.variables['time'].setncattr('units', self._time_units)
        else:
            dataset.variables['time'].setncattr('units', '{} since {}'.format(self._time_units, time))
            dataset.variables['time'].setncattr('calendar', 'proleptic_gregorian')


def got_write(self: NetCDFMonitor):
    """C15 C16 | at=sympl.NetCDFMonitor.write opaque=sympl.NetCDFMonitor._ensure_cached_state_keys_compatible_with_dataset,sympl.NetCDFMonitor._get_ordered_times_and_states,sympl.NetCDFMonitor._ensure_time_exists,sympl._components.netcdf.append_times_to_dataset,sympl._components.netcdf.combine_states,sympl._components.netcdf.ensure_variable_exists calls=netCDF4.Dataset,!with,!mutate,sympl._components.netcdf.* ordered"""
    self.write()
    return self._cached_state_dict


def want_write(self: NetCDFMonitor):
    with nc4.Dataset(self._filename, 'a' if os.path.isfile(self._filename) else 'w') as dataset:
        self._ensure_cached_state_keys_compatible_with_dataset(dataset)
        times, states = self._get_ordered_times_and_states()
        self._ensure_time_exists(dataset, times[0])
        start = dataset.dimensions['time'].size
        stop = start + len(times)
        netcdf.append_times_to_dataset(times, dataset, self._time_units)
        all_states = netcdf.combine_states(states)
        for name, value in all_states.items():
            netcdf.ensure_variable_exists(dataset, name, value)
            dataset.variables[name][start:stop, :] = value.values[:, :]
    self._cached_state_dict = {}
    return self._cached_state_dict


class Seen(NetCDFMonitor):
    """shows what a write would have seen"""

    def write(self):
        self.seen = dict(self._cached_state_dict)


def got_store_writes(filename: 'str', state: 'map'):
    """C15 | at=sympl.NetCDFMonitor.store noraise"""
    monitor = Seen(filename, write_on_store=True)
    monitor.store(state)
    return monitor.seen


def want_store_writes(filename: 'str', state: 'map'):
    variables = dict(state)
    variables.pop('time')
    return {state['time']: variables}


def got_store_waits(filename: 'str', state: 'map'):
    """C15 | at=sympl.NetCDFMonitor.store noraise"""
    monitor = Seen(filename)
    monitor.seen = 'nothing'
    monitor.store(state)
    return monitor.seen


def want_store_waits(filename: 'str', state: 'map'):
    return 'nothing'
