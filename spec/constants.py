"""The constant library (analysed, never run)."""
from sympl._core import constants as cs
from sympl._core.constants import ConstantDict, default_constants, default_constant_aliases, constant_names_by_category
from sympl._core.backend import get_backend
from sympl import is_valid_unit


def alias(name):
    n = 0
    while name in cs.constant_aliases and n < 100:
        name = cs.constant_aliases[name]
        n += 1
    if name in cs.constant_aliases:
        raise RuntimeError()
    return name


def got_alias(name: 'str'):
    """C14 C13 | at=sympl._core.constants.get_alias glob=_core.constants.constant_aliases"""
    return cs.get_alias(name)


def want_alias(name: 'str'):
    return alias(name)


def got_set_constant(name: 'str', value: 'num', units: 'str'):
    """C23 C14 | at=sympl.set_constant glob=_core.constants.constants,_core.constants.constant_aliases opaque=sympl._core.constants.get_alias"""
    cs.set_constant(name, value, units)


def want_set_constant(name: 'str', value: 'num', units: 'str'):
    if not is_valid_unit(units):
        raise ValueError()
    cs.constants[cs.get_alias(name)] = get_backend().get_container_type()(value, attrs={'units': units})


def got_get_constant(name: 'str', units: 'str'):
    """C14 | at=sympl.get_constant glob=_core.constants.constants,_core.constants.constant_aliases opaque=sympl._core.constants.get_alias"""
    return cs.get_constant(name, units)


def want_get_constant(name: 'str', units: 'str'):
    return cs.constants[cs.get_alias(name)].to_units(units).values.item()


def got_reset_constants(name: 'str', value: 'any'):
    """C14 | at=sympl.reset_constants glob=_core.constants.default_constants,_core.constants.default_constant_aliases"""
    cs.reset_constants()
    cs.set_condensible_name(name)
    cs.constants['probe'] = value
    cs.reset_constants()
    return dict(cs.constants), dict(cs.constant_aliases)


def want_reset_constants(name: 'str', value: 'any'):
    aliases = dict(default_constant_aliases)
    aliases.update(condensible('water'))
    return dict(default_constants), aliases


def condensible(name):
    return {
        'gas_constant_of_vapor_phase': 'gas_constant_of_%s_vapor' % name,
        'heat_capacity_of_vapor_phase': 'heat_capacity_of_%s_vapor_at_constant_pressure' % name,
        'specific_enthalpy_of_vapor_phase': 'specific_enthalpy_of_%s_vapor' % name,
        'density_of_liquid_phase': 'density_of_liquid_%s' % name,
        'heat_capacity_of_liquid_phase': 'heat_capacity_of_liquid_%s' % name,
        'latent_heat_of_vaporization': 'latent_heat_of_vaporization_of_%s' % name,
        'freezing_temperature_of_liquid_phase': 'freezing_temperature_of_liquid_%s' % name,
        'thermal_conductivity_of_liquid_phase': 'thermal_conductivity_of_liquid_%s' % name,
        'latent_heat_of_fusion': 'latent_heat_of_fusion_of_%s' % name,
        'density_of_solid_phase_as_ice': 'density_of_solid_%s_as_ice' % name,
        'density_of_solid_phase_as_snow': 'density_of_solid_%s_as_snow' % name,
        'heat_capacity_of_solid_phase_as_ice': 'heat_capacity_of_solid_%s_as_ice' % name,
        'heat_capacity_of_solid_phase_as_snow': 'heat_capacity_of_solid_%s_as_snow' % name,
        'thermal_conductivity_of_solid_phase_as_ice': 'thermal_conductivity_of_solid_%s_as_ice' % name,
        'thermal_conductivity_of_solid_phase_as_snow': 'thermal_conductivity_of_solid_%s_as_snow' % name,
    }


def got_condensible(name: 'str'):
    """C13 C14 | at=sympl.set_condensible_name glob=_core.constants.constant_aliases,_core.constants.constants"""
    cs.set_condensible_name(name)


def want_condensible(name: 'str'):
    cs.constant_aliases.update(condensible(name))


def got_default_aliases():
    """C13 | at=sympl._core.constants"""
    return dict(default_constant_aliases)


def want_default_aliases():
    return {
        'latent_heat_of_condensation': 'latent_heat_of_vaporization',
        'enthalpy_of_fusion': 'latent_heat_of_fusion',
        'stellar_irradiance': 'solar_constant',
        'heat_capacity_of_ice': 'heat_capacity_of_solid_phase_as_ice',
        'heat_capacity_of_snow': 'heat_capacity_of_solid_phase_as_snow',
        'thermal_conductivity_of_ice': 'thermal_conductivity_of_solid_phase_as_ice',
        'thermal_conductivity_of_snow': 'thermal_conductivity_of_solid_phase_as_snow',
        'density_of_ice': 'density_of_solid_phase_as_ice',
        'density_of_snow': 'density_of_solid_phase_as_snow',
    }


def got_library_read(self: ConstantDict, name: 'str'):
    """C14 C13 | at=sympl._core.constants.ConstantDict.__getitem__ opaque=sympl._core.constants.get_alias"""
    return ConstantDict.__getitem__(self, name)


def want_library_read(self: ConstantDict, name: 'str'):
    return super(ConstantDict, self).__getitem__(cs.get_alias(name) if name in cs.constant_aliases else name)


def got_library_write(self: ConstantDict, name: 'str', value: 'any'):
    """C14 | at=sympl._core.constants.ConstantDict.__setitem__ opaque=sympl._core.constants.get_alias calls=.__setitem__"""
    ConstantDict.__setitem__(self, name, value)


def want_library_write(self: ConstantDict, name: 'str', value: 'any'):
    if name in cs.constant_aliases:
        super(ConstantDict, self).__setitem__(cs.get_alias(name), value)
    else:
        super(ConstantDict, self).__setitem__(name, value)


def probe_library():
    """the default tables, for the rules about their entries"""
    return dict(default_constants), dict(default_constant_aliases), cs.get_condensible_map('water'), \
        constant_names_by_category
