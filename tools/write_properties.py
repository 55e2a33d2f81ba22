"""Writes properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json
import os

CORE = 'sympl/_core/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])))


prop('C01', 'A component computes on exactly the inputs it declared',
     'Whenever a component is called, its numerical routine receives every declared input, under the declared alias when there is one, '
     'converted to the declared units and dimensions of that component, together with the state time, the packed tracers it asked for and nothing else. '
     'If a declared input is absent from the state, the call fails with InvalidStateError and the numerical routine is not run.',
     ['inputs', 'programs'],
     'every state, every property declaration (names, aliases, units, dims, tracers, raw options) and each of the four component kinds',
     'Tests call a few mock components with one or two fixed quantities; declarations and states are unbounded.',
     [CORE + 'base_components.py', CORE + 'get_np_arrays.py', CORE + 'backend.py'],
     [('component __call__ pipeline', CORE + 'base_components.py'), ('backend get_numpy_arrays', CORE + 'get_np_arrays.py')])
prop('C02', 'A component returns exactly the outputs it declared',
     'Every successful call of a component returns precisely the quantities its property declarations promise, labelled with the declared names, units and dimensions, '
     'restored from what its numerical routine produced. An undeclared output, or a declared output that was not computed, always makes the call fail with the corresponding output error instead of returning.',
     ['inputs', 'programs'],
     'every declaration of tendency, diagnostic and output properties and every dictionary the numerical routine returns',
     'Tests check single missing or extra names; any subset of names, aliases and tracer settings must be covered.',
     [CORE + 'base_components.py', CORE + 'restore_dataarray.py'],
     [('TendencyChecker/DiagnosticChecker/OutputChecker', CORE + 'base_components.py'), ('restore_data_arrays_with_properties', CORE + 'restore_dataarray.py')])
prop('C03', 'Ill-declared or uninitialised components are refused',
     'Constructing a component whose property declarations lack units or dims where required, or whose units for a quantity are inconsistent between declarations, raises InvalidPropertyDictError. '
     'Calling a component whose base constructor has not run raises an error before its numerical routine is run.',
     ['programs', 'configurations'],
     'every class definition deriving from the component bases and every constructor argument',
     'Each test fixes one ill-formed declaration; the guarantee ranges over all component classes users write.',
     [CORE + 'base_components.py'],
     [('checkers run in __init__', CORE + 'base_components.py'), ('_check_self_is_initialized', CORE + 'base_components.py')])
prop('C04', 'Model states passed in are not modified',
     'Calling a wrapper, composite or time stepper (other than Leapfrog, which is documented to filter the previous state in place) leaves the state it was given with the same keys bound to the same, unmodified quantities. '
     'The state that a stepper returns is a new container.',
     ['inputs', 'histories'],
     'every state and every sequence of calls on the same object',
     'Tests compare one state before and after one call; aliasing bugs appear for particular keys, call numbers or unit conversions.',
     [CORE + 'tendencystepper.py', CORE + 'wrappers.py', CORE + 'composite.py', 'sympl/_components/timesteppers.py'],
     [('copying of untouched variables', CORE + 'util.py'), ('state arithmetic', CORE + 'state.py')])
prop('C05', 'Results and declarations owned by a component are never altered',
     'Composites, wrappers and component bases combine results without altering in place anything that the wrapped components still own: the dictionaries or arrays their numerical routines returned, their class-level property declarations, or arrays they may return again later.',
     ['programs', 'histories'],
     'every wrapped component, including one that returns the same object on each call, and every number of instances of a class',
     'Mock components in tests return fresh objects; sharing across calls or instances is a property of histories.',
     [CORE + 'base_components.py', CORE + 'composite.py', CORE + 'wrappers.py', CORE + 'util.py'],
     [('update_dict_by_adding_another', CORE + 'util.py'), ('per-instance property copies', CORE + 'base_components.py')])
prop('C06', 'Values are combined only after conversion to common units',
     'When contributions of several components, or a state and its tendencies over a time step, are combined, each contribution is first converted to the units of what it is combined with, and the units label of the result matches the numbers it holds.',
     ['inputs', 'programs'],
     'every pair of compatible units the components declare, and every state',
     'Tests use mostly identical units; a missing conversion only shows for the quantities and paths with differing ones.',
     [CORE + 'util.py', CORE + 'tendencystepper.py', 'sympl/_components/timesteppers.py', CORE + 'composite.py'],
     [('to_units before addition', CORE + 'util.py'), ('units recorded on stepped quantities', CORE + 'tendencystepper.py')])
prop('C07', 'Composites run every component once and combine all their results',
     'A composite calls each of its components exactly once per call, in the given order and with the given state; its tendencies are the sums of theirs and its diagnostics the union. '
     'Components of the wrong kind, or two components computing the same diagnostic, are refused at construction.',
     ['programs', 'inputs'],
     'every number and kind of component and any overlap of their outputs',
     'Tests use two or three mocks with fixed overlaps.',
     [CORE + 'composite.py', CORE + 'util.py'],
     [('ComponentComposite', CORE + 'composite.py'), ('ensure_no_shared_keys', CORE + 'util.py')])
prop('C08', 'Time steppers advance by their documented schemes, at every step',
     'Each multi-step or multi-stage stepper applies the coefficients of its documented scheme to the tendencies of the right number of previous calls, starting with the lower-order schemes until enough history exists and discarding older history. '
     'A change of time step during a run, or an unsupported order or number of stages, is refused with an error.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of calls on one stepper, every state, and every supported order',
     'Tests take a handful of steps with constant or simple tendencies, for which many wrong schemes give the same numbers.',
     ['sympl/_components/timesteppers.py', CORE + 'tendencystepper.py'],
     [('AdamsBashforth', 'sympl/_components/timesteppers.py'), ('Leapfrog', 'sympl/_components/timesteppers.py'), ('SSPRungeKutta', 'sympl/_components/timesteppers.py')])
prop('C09', 'Stepping passes on what has no tendency and never advances the time',
     'The state returned by a time stepper contains every quantity of the given state; those without a tendency are passed on with unchanged values, and the time is passed on unchanged.',
     ['inputs', 'histories'],
     'every state, including one with non-numeric or foreign entries, and every step number',
     'Tests use states holding only the stepped quantities.',
     ['sympl/_components/timesteppers.py', CORE + 'tendencystepper.py', CORE + 'util.py'],
     [('copy_untouched_quantities', CORE + 'tendencystepper.py')])
prop('C10', 'Combined declarations are compatible with each component',
     'The properties a composite or stepper derives from its components contain every quantity any of them declares, with units convertible to and dimensions compatible with every one of those declarations. '
     'If two declarations conflict in units or dimensions, combining them raises InvalidPropertyDictError, in whichever order the components are given.',
     ['programs', 'configurations'],
     'every list of property declarations, including wildcard dimensions, in every order',
     'Tests combine few fixed declarations; conflicts depend on order and on which declaration holds the wildcard.',
     [CORE + 'combine_properties.py', CORE + 'composite.py', CORE + 'units.py'],
     [('combine_properties, combine_dims', CORE + 'combine_properties.py')])
prop('C11', 'Tracers are packed and unpacked without mixing them up',
     'Packing places each registered or requested tracer at one fixed position of the tracer array, in its registered units, and unpacking returns the values at that position under the same name; the length of the tracer array always equals the number of tracers packed.',
     ['inputs', 'configurations', 'histories'],
     'every set and order of registered tracers, prepended tracers, and states',
     'Tests use up to three tracers with fixed order.',
     [CORE + 'tracers.py', CORE + 'init_np_arrays.py', CORE + 'base_components.py'],
     [('TracerPacker', CORE + 'tracers.py')])
prop('C12', 'The tracer registry stays consistent under every sequence of operations',
     'After any sequence of registrations and resets, each tracer is known once with one unit, and every tracer-using component sees the same set. '
     'Registering a name again with other units, or a name that a component already uses as an input, is refused and leaves the registry as it was.',
     ['histories'],
     'every sequence of register, reset and component construction',
     'Tests register a few tracers in a fixed sequence.',
     [CORE + 'tracers.py'],
     [('register_tracer, reset_tracers, reset_packers', CORE + 'tracers.py')])
prop('C13', 'The constant library holds the physical values it documents',
     'Every constant in the default library has the documented name, a units string that parses, and a numerical value that agrees with the accepted physical value in those units; derived condensible constants refer to the selected substance.',
     ['configurations'],
     'every constant and every condensible substance in the library',
     'Tests read back a few constants.',
     [CORE + 'constants.py'],
     [('default constant tables', CORE + 'constants.py')])
prop('C14', 'Constants are read back exactly as last set, in the requested units',
     'A constant reads back as the value last set for it, converted to the requested units; unknown constants are refused with an error, resetting restores the defaults, and reading or resetting never shares a mutable array or table with the stored defaults.',
     ['histories', 'inputs'],
     'every sequence of set, get, reset and condensible selection',
     'Tests run fixed short sequences; leakage needs particular ones.',
     [CORE + 'constants.py'],
     [('get_constant, set_constant, reset_constants', CORE + 'constants.py')])
prop('C15', 'The NetCDF monitor writes each stored state once, in time order',
     'The NetCDF monitor writes exactly the states given to it, restricted to the requested variables and aliased as requested, one record per distinct time in increasing time order; a state whose variables differ from those already written is refused with an error.',
     ['histories'],
     'every sequence of store and write calls and both write modes',
     'Tests store a few states in one order.',
     ['sympl/_components/netcdf.py'],
     [('NetCDFMonitor', 'sympl/_components/netcdf.py')])
prop('C16', 'A restart file is always a complete state, even after a crash',
     'At every moment, also when the process dies during a store, the restart file holds the complete most recently stored state or the one before it, and loading returns all quantities and the time of that state.',
     ['crash_points', 'fault_sequences'],
     'every point at which a store can be interrupted',
     'Tests never interrupt a store.',
     ['sympl/_components/netcdf.py'],
     [('RestartMonitor', 'sympl/_components/netcdf.py')])
prop('C17', 'An update-frequency wrapper refreshes exactly when due',
     'A component wrapped to update at a given interval is called on the first call and then on exactly those calls whose state time is at least the interval after the last real call; all other calls return the results of the last real call, and do not alter them.',
     ['histories', 'inputs'],
     'every sequence of state times and every interval',
     'Tests use a few equally spaced times.',
     [CORE + 'wrappers.py'],
     [('UpdateFrequencyWrapper', CORE + 'wrappers.py')])
prop('C18', 'A scaling wrapper multiplies exactly the named quantities by its factors',
     'A scaled component is called with the named inputs multiplied by their factors and all else unchanged, and each named output, tendency or diagnostic it returns is multiplied by its factor once, keeping its units and dimensions. '
     'Factors for quantities the component does not have, or a missing time step where one is needed, are refused with an error.',
     ['inputs', 'programs'],
     'every component kind, state, and set of factors',
     'Tests use one or two factors and one component kind at a time.',
     [CORE + 'wrappers.py'],
     [('ScalingWrapper', CORE + 'wrappers.py')])
prop('C19', 'Relaxation, constant and differencing components compute their formulas',
     'The ready-made components compute exactly what they document: a constant set of outputs, relaxation toward a target over a timescale with the sign that reduces the difference, and tendencies that are the output minus the input divided by the time step.',
     ['inputs', 'programs'],
     'every quantity, state, timescale and time step',
     'Tests use a handful of values.',
     ['sympl/_components/basic.py', CORE + 'wrappers.py'],
     [('basic components', 'sympl/_components/basic.py')])
prop('C20', 'Dimensions are reordered and collapsed reversibly',
     'Extracting an array for a list of dimensions, with at most one wildcard, gives the same values in the requested dimension order with the remaining dimensions flattened in one fixed order, and restoring the result gives back those dimensions with their lengths. '
     'A missing dimension, or dimensions that no wildcard can absorb, always raises an error rather than reordering silently.',
     ['inputs'],
     'every array, set of dimension names and target order',
     'Tests use up to three dimensions.',
     [CORE + 'get_np_arrays.py', CORE + 'restore_dataarray.py', CORE + 'wildcard.py', CORE + 'util.py'],
     [('get_numpy_array, restore_dimensions', CORE + 'util.py'), ('wildcard handling', CORE + 'wildcard.py')])
prop('C21', 'Component kinds are recognised by their interface, unambiguously',
     'An object counts as a component of a kind exactly when it offers the properties and call interface of that kind and none that distinguish another kind, whether or not it inherits from the base class; instances of one kind are never accepted as another.',
     ['programs'],
     'every class offering any combination of the interface attributes',
     'Tests try a few classes.',
     [CORE + 'base_components.py'],
     [('ComponentMeta.__instancecheck__', CORE + 'base_components.py')])
prop('C22', 'Each calendar name yields the date type of that calendar',
     'Creating a date-time with a supported calendar name, or synonym, returns a date in exactly that calendar with the given fields, case aside; any other name raises ValueError.',
     ['inputs', 'configurations'],
     'every calendar name and field values',
     'Tests cover the documented names only.',
     [CORE + 'time.py'],
     [('datetime', CORE + 'time.py')])
prop('C23', 'All conversions go through the configured backend',
     'Components obtain arrays from, and wrap results in, the containers of the backend that is currently configured and of no other, so that replacing the backend is effective for every component kind.',
     ['configurations', 'programs'],
     'every component kind and every backend',
     'Tests exercise the default backend.',
     [CORE + 'backend.py', CORE + 'base_components.py'],
     [('get_backend/set_backend', CORE + 'backend.py')])
prop('C24', 'Public names import and misuse raises documented errors',
     'Everything the package lists as public can be imported under that name, and refers to the object of that name; the error types the package documents derive from the documented bases and no failure is silently swallowed.',
     ['configurations'],
     'every public name and every except clause',
     'No test imports every public name.',
     ['sympl/__init__.py', CORE + 'exceptions.py'],
     [('__all__', 'sympl/__init__.py')])
prop('C25', 'Tendencies reported as diagnostics are the tendencies applied',
     'A component or stepper asked to report tendencies as diagnostics returns, for each quantity it changes, one additional diagnostic named after the quantity and the component, equal to the tendency it applied (for steppers the change divided by the time step), and declares it in its diagnostic properties. '
     'Without that option no such diagnostic appears.',
     ['inputs', 'programs', 'configurations'],
     'every component kind, quantity (aliased or not), and option setting',
     'Tests use one or two quantities without aliases.',
     [CORE + 'base_components.py', CORE + 'tendencystepper.py'],
     [('tendencies_in_diagnostics', CORE + 'base_components.py')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
