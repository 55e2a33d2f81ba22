"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'static analysis: value-flow abstract interpretation, summary compared with the specified one'
NOTE = ('Decides the comparison of value graphs over arbitrary inputs (no code run, no solver); pint, xarray, numpy and '
        'netCDF4 are trusted through their modelled contracts. Where a summary has no normal form the obligation is '
        'counted as undecided in the evidence and the check stays quiet about it. ')
CLAIMED = {
    'C01': 'The four component kinds, with and without tracers and labelled tendencies.',
    'C02': 'The four component kinds, with and without tracers and labelled tendencies.',
    'C03': 'Construction and un-initialised calls of the four component kinds.',
    'C04': 'Final contents of the argument states, for wrappers, composites, Adams-Bashforth 1-4 and SSP Runge-Kutta 2-3.',
    'C05': 'Results of components in composites, including repeated calls and shared containers.',
    'C06': 'Unit conversions and unit labels in composites and time steppers.',
    'C07': 'Composites of one to three components and the call order for any number.',
    'C08': 'Adams-Bashforth orders 1-4, Leapfrog, SSP Runge-Kutta 2-3, over up to order+1 successive calls.',
    'C09': 'Every time stepper and the base class of tendency steppers.',
    'C10': 'Property combination of any number of components, of composites and of tendency steppers.',
    'C11': 'The tracer packer on arbitrary states, and the four component kinds with tracers.',
    'C12': 'The tracer registry and packer bookkeeping, including refused registrations.',
    'C13': 'Every entry of the default tables, evaluated from the source.',
    'C14': 'Reading, writing and resetting the constant library, for arbitrary names, values and units.',
    'C15': 'Up to two successive stores of arbitrary states, all constructor options; the time axis of any number of states.',
    'C16': 'Order of the file operations of one store on every path, and what loading returns.',
    'C17': 'Up to three successive calls of a wrapped component with arbitrary states.',
    'C18': 'All four kinds of wrapped component.',
    'C19': 'Values, declarations and results of all ready-made components.',
    'C20': 'Wildcard matching, flattening, padding and restoring for arrays of any number of dimensions.',
    'C21': 'The metaclass test for each of the four kinds, on an arbitrary object.',
    'C22': 'Every calendar name; cftime is analysed as installed.',
    'C23': 'The choice of backend, every use of it in the package, and the four component kinds.',
    'C24': 'Every public name, raise statement and except clause of the package.',
    'C25': 'The four component kinds.',
}
NOT_YET = 'check under construction'
NA = {}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
    checks = []
    for i in ids:
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                               thorough_cmd='python3 check.py %s --tier thorough' % i,
                               technique=TECH, level='other', level_note=NOTE + CLAIMED[i]))
    na = [dict(property=i, reason=NA.get(i, NOT_YET)) for i in ids if i not in CLAIMED]
    m = dict(version=1, setup_cmd='python3 -c "import ast, json; print(1)"', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
