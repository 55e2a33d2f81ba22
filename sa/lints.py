"""Rules over the syntax trees of the package: each inspects every construct it
applies to and reports the ones that break it."""
import ast

LINTS = {}


def lint(name, *props):
    def deco(f):
        LINTS[name] = (props, f)
        return f
    return deco


# ---------------------------------------------------------------- physical constants
# accepted value in SI base units, dimensions (kg, m, s, K, mol), relative tolerance
KG, M, S_, K, MOL = (tuple(int(i == j) for i in range(5)) for j in range(5))


def dims(kg=0, m=0, s=0, k=0, mol=0):
    return (kg, m, s, k, mol)


HEAT_CAPACITY, ENTHALPY = dims(m=2, s=-2, k=-1), dims(m=2, s=-2)
CONDUCTIVITY, DENSITY = dims(kg=1, m=1, s=-3, k=-1), dims(kg=1, m=-3)
ACCEPTED = {
    'stefan_boltzmann_constant': (5.670367e-8, dims(kg=1, s=-3, k=-4), 1e-4),
    'gravitational_acceleration': (9.80665, dims(m=1, s=-2), 1e-3),
    'heat_capacity_of_dry_air_at_constant_pressure': (1004.64, HEAT_CAPACITY, 2e-3),
    'heat_capacity_of_water_vapor_at_constant_pressure': (1846.0, HEAT_CAPACITY, 1e-2),
    'specific_enthalpy_of_water_vapor': (2.5e6, ENTHALPY, 1e-2),
    'heat_capacity_of_liquid_water': (4185.5, HEAT_CAPACITY, 1e-2),
    'freezing_temperature_of_liquid_water': (273.15, dims(k=1), 1e-3),
    'thermal_conductivity_of_liquid_water': (0.57, CONDUCTIVITY, 3e-2),
    'heat_capacity_of_solid_water_as_ice': (2108., HEAT_CAPACITY, 1e-2),
    'thermal_conductivity_of_solid_water_as_ice': (2.22, CONDUCTIVITY, 3e-2),
    'heat_capacity_of_solid_water_as_snow': (2108., HEAT_CAPACITY, 1e-2),
    'thermal_conductivity_of_solid_water_as_snow': (0.2, CONDUCTIVITY, 5e-2),
    'reference_air_pressure': (1.0132e5, dims(kg=1, m=-1, s=-2), 1e-3),
    'reference_air_temperature': (300., dims(k=1), 1e-3),
    'thermal_conductivity_of_dry_air': (0.026, CONDUCTIVITY, 3e-2),
    'gas_constant_of_dry_air': (287., HEAT_CAPACITY, 1e-3),
    'gas_constant_of_water_vapor': (461.5, HEAT_CAPACITY, 1e-3),
    'planetary_rotation_rate': (7.292e-5, dims(s=-1), 1e-3),
    'planetary_radius': (6.371e6, dims(m=1), 2e-3),
    'latent_heat_of_vaporization_of_water': (2.5e6, ENTHALPY, 5e-3),
    'latent_heat_of_fusion_of_water': (333550.0, ENTHALPY, 3e-3),
    'density_of_liquid_water': (1e3, DENSITY, 2e-3),
    'density_of_solid_water_as_ice': (916.7, DENSITY, 2e-3),
    'density_of_solid_water_as_snow': (100.0, DENSITY, 1e-2),
    'solar_constant': (1367., dims(kg=1, s=-3), 6e-3),
    'planck_constant': (6.62607004e-34, dims(kg=1, m=2, s=-1), 1e-4),
    'speed_of_light': (299792458., dims(m=1, s=-1), 1e-6),
    'seconds_per_day': (86400., dims(), 1e-9),
    'avogadro_constant': (6.022140857e23, dims(mol=-1), 1e-4),
    'boltzmann_constant': (1.38064852e-23, dims(kg=1, m=2, s=-2, k=-1), 1e-4),
    'loschmidt_constant': (2.6516467e25, dims(m=-3), 2e-2),
    'universal_gas_constant': (8.3144598, dims(kg=1, m=2, s=-2, k=-1, mol=-1), 1e-4),
}
UNITS = {
    'kg': (1., dims(kg=1)), 'kilogram': (1., dims(kg=1)), 'g': (1e-3, dims(kg=1)), 'gram': (1e-3, dims(kg=1)),
    'm': (1., dims(m=1)), 'meter': (1., dims(m=1)), 'metre': (1., dims(m=1)), 'km': (1e3, dims(m=1)),
    'kilometer': (1e3, dims(m=1)), 'cm': (1e-2, dims(m=1)), 'mm': (1e-3, dims(m=1)),
    's': (1., dims(s=1)), 'second': (1., dims(s=1)), 'sec': (1., dims(s=1)), 'day': (86400., dims(s=1)),
    'hour': (3600., dims(s=1)), 'minute': (60., dims(s=1)),
    'K': (1., dims(k=1)), 'degK': (1., dims(k=1)), 'kelvin': (1., dims(k=1)),
    'mol': (1., dims(mol=1)), 'mole': (1., dims(mol=1)), 'kmol': (1e3, dims(mol=1)),
    'Pa': (1., dims(kg=1, m=-1, s=-2)), 'pascal': (1., dims(kg=1, m=-1, s=-2)),
    'hPa': (1e2, dims(kg=1, m=-1, s=-2)), 'mbar': (1e2, dims(kg=1, m=-1, s=-2)), 'kPa': (1e3, dims(kg=1, m=-1, s=-2)),
    'N': (1., dims(kg=1, m=1, s=-2)), 'newton': (1., dims(kg=1, m=1, s=-2)),
    'J': (1., dims(kg=1, m=2, s=-2)), 'joule': (1., dims(kg=1, m=2, s=-2)), 'kJ': (1e3, dims(kg=1, m=2, s=-2)),
    'W': (1., dims(kg=1, m=2, s=-3)), 'watt': (1., dims(kg=1, m=2, s=-3)), 'kW': (1e3, dims(kg=1, m=2, s=-3)),
    'dimensionless': (1., dims()), 'radian': (1., dims()), 'Hz': (1., dims(s=-1)),
}


def parse_units(text):
    """(factor to SI base units, dimensions), None where a unit is not in the table."""
    import re
    f, d, sign = 1., [0] * 5, 1
    toks = re.findall(r'[A-Za-z]+|\*\*|\^|[*/]|[-+]?\d+(?:\.\d+)?|\S', text)
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == '*':
            i += 1
            continue
        if t == '/':
            sign = -1
            i += 1
            continue
        p = 1
        if i + 2 < len(toks) and toks[i + 1] in ('**', '^'):
            try:
                p = int(toks[i + 2])
            except ValueError:
                return None
            step = 3
        else:
            step = 1
        if t == '1':
            u = (1., dims())
        else:
            u = UNITS.get(t)
        if u is None:
            return None
        f *= u[0] ** (sign * p)
        d = [a + sign * p * b for a, b in zip(d, u[1])]
        sign = 1
        i += step
    return f, tuple(d)


def number(t):
    """The value of a literal arithmetic term."""
    if t.op == 'const' and t.args[0] in ('int', 'float'):
        return float(t.args[1])
    a = [number(x) for x in t.args if hasattr(x, 'op')]
    if None in a or not a:
        return None
    try:
        return {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y,
                'div': lambda x, y: x / y, 'pow': lambda x, y: x ** y, 'neg': lambda x: -x}[t.op](*a)
    except (KeyError, TypeError, ZeroDivisionError, OverflowError):
        return None


def library(w):
    from . import model, terms
    fi = [m for m in w.specs if m.name.endswith('constants')][0].bindings['probe_library'][1]
    r = model.run(w, fi, w.opaque())
    if r.error or r.ret.op != 'seq':
        raise ValueError('the tables could not be evaluated: %s' % r.error)
    return [p.args[0] for p in r.ret.args], terms


def key_line(w, key):
    m = w.prog.modules['sympl._core.constants']
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Constant) and k.value == key:
                    return m.path, k.lineno
    return m.path, 1


@lint('constant_values', 'C13')
def constant_values(w):
    (table, aliases, water, cats), T = library(w)
    bad, und, sites = [], [], 0
    for name, (value, dim, tol) in sorted(ACCEPTED.items()):
        sites += 1
        path, line = key_line(w, name)
        present = T.In(T.const(name), table)
        where = ('value of ' + name, path, line, 'sympl._core.constants.default_constants')
        if present is T.FALSE:
            bad.append(where + ('no such constant', '%r' % value))
            continue
        e = T.item(table, T.const(name))
        v = u = None
        if e.op == 'call':
            if len(e.args) > 1:
                v = number(e.args[1])
            for a in e.args[1:]:
                if a.op == 'kw' and a.args[0] == 'attrs':
                    x = T.item(a.args[1], T.const('units'))
                    if x.op == 'const' and isinstance(x.args[1], str):
                        u = x.args[1]
        if not isinstance(v, (int, float)) or u is None:
            und.append(name + ' is not a literal value')
            continue
        pu = parse_units(u)
        if pu is None:
            und.append('units of %s: %r' % (name, u))
            continue
        req = '%r in SI units (within %g), dimensions kg,m,s,K,mol %s' % (value, tol, dim)
        if pu[1] != dim:
            bad.append(('units of ' + name,) + where[1:] + ('%r %s' % (v, u), req))
        elif abs(v * pu[0] - value) > tol * abs(value):
            bad.append(where + ('%r %s' % (v, u), req))
    return dict(rule='each documented constant of the default table has the accepted value, in units of its dimensions',
                violations=bad, undecided='; '.join(und) or None, sites=sites,
                functions=['sympl._core.constants'])


def keys_of(T, d, extra):
    """Literal keys tested anywhere in the table."""
    out, stack, seen = [], [d], set()
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'eq' or t.op == 'eqc':
            for a in t.args:
                if a.op == 'const' and isinstance(a.args[1], str) and a.args[1] not in out:
                    out.append(a.args[1])
        stack.extend(a for a in t.args if isinstance(a, T.T))
    return out


@lint('constant_names', 'C13')
def constant_names(w):
    (table, aliases, water, cats), T = library(w)
    bad, und, sites = [], [], 0

    def resolve(name):
        for _ in range(10):
            for t in (aliases, water):
                if T.In(T.const(name), t) is T.TRUE:
                    x = T.item(t, T.const(name))
                    if x.op != 'const':
                        return None
                    name = x.args[1]
                    break
            else:
                return name
        return None

    def check(name, what):
        r = resolve(name)
        ok = T.In(T.const(r), table) if r is not None else T.FALSE
        if ok is T.FALSE:
            path, line = key_line(w, name)
            bad.append(('%s %s' % (what, name), path, line, 'sympl._core.constants',
                        'resolves to %s, which is not in the table' % r, 'every name refers to a constant'))
        elif ok is not T.TRUE:
            und.append(name)
    for t, what in ((aliases, 'alias'), (water, 'condensible name')):
        for k in keys_of(T, t, ()):
            sites += 1
            check(k, what)
    for c in keys_of(T, cats, ()):
        l = T.item(cats, T.const(c))
        if l.op != 'list':
            und.append('category ' + c)
            continue
        for p in l.args[0].args:
            sites += 1
            if p.op == 'lit' and p.args[0].op == 'const':
                check(p.args[0].args[1], 'listed constant')
            else:
                und.append('category ' + c)
    return dict(rule='every alias, condensible name (for water) and listed name refers to an entry of the table',
                violations=bad, undecided='; '.join(und) or None, sites=sites,
                functions=['sympl._core.constants'])


# ---------------------------------------------------------------- names and errors
def where(node, m, default=1):
    return m.path, getattr(node, 'lineno', default)


def functions_of(tree):
    """(qualified name, node) of every function, with the code outside functions as ('', tree)."""
    out = []

    def go(body, prefix):
        for st in body:
            for n in ast.iter_child_nodes(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else [st]:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + n.name
                    out.append((q, n))
                    go(n.body, q + '.')
                elif isinstance(n, ast.ClassDef):
                    go(n.body, prefix + n.name + '.')
                elif isinstance(n, (ast.stmt, ast.ExceptHandler)):
                    go([n], prefix)
    go(tree.body, '')
    return out


def owner(m, node):
    """Qualified name of the innermost function around node."""
    best, line = m.name, getattr(node, 'lineno', 0)
    for q, f in functions_of(m.tree):
        if f.lineno <= line <= (f.end_lineno or line):
            best = m.name + '.' + q
    return best


def package_modules(w):
    return [m for n, m in sorted(w.prog.modules.items()) if n == 'sympl' or n.startswith('sympl.')]


def names_listed(e, m):
    """Strings of an __all__ value: a sequence display, sums, list()/tuple()/sorted() of one, or a name bound to one."""
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r = names_listed(x.value, m)
            elif isinstance(x, ast.Constant):
                r = [(x.value, x)]
            elif isinstance(x, ast.Attribute) and x.attr == '__name__' and isinstance(x.value, ast.Name):
                r = [(x.value.id, x)]
            else:
                r = [(None, x)]
            if r is None:
                return None
            out += r
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = names_listed(e.left, m), names_listed(e.right, m)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted', 'set') \
            and len(e.args) == 1:
        return names_listed(e.args[0], m)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'split' and \
            isinstance(e.func.value, ast.Constant) and not e.args:
        return [(x, e) for x in e.func.value.value.split()]
    if isinstance(e, ast.Name) and m.bindings.get(e.id, ('',))[0] == 'data':
        return names_listed(m.bindings[e.id][1], m)
    return None


@lint('public_names', 'C24')
def public_names(w):
    m = w.prog.modules['sympl']
    bad, und, sites = [], [], 0
    b = m.bindings.get('__all__')
    listed = names_listed(b[1], m) if b and b[0] == 'data' else None
    for st in m.tree.body:
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == '__all__':
            more = names_listed(st.value, m)
            listed = None if listed is None or more is None else listed + more
    if b is not None and listed is None:
        und.append('__all__ has an unknown form')
    seen = set()
    for name, node in listed or []:
        sites += 1
        if not isinstance(name, str):
            bad.append(('entry of __all__', m.path, node.lineno, 'sympl', ast.unparse(node), 'a string that names an object'))
            continue
        seen.add(name)
        r = w.prog.resolve(m, name)
        if r is None and name not in ('__version__', '__name__', '__doc__'):
            bad.append(('public name ' + name, m.path, node.lineno, 'sympl', 'no such name in the package', 'an importable object'))
    # every imported public name is the object of that name
    for name, bnd in sorted(m.bindings.items()):
        if bnd[0] != 'from':
            continue
        sites += 1
        r = w.prog.resolve(m, name)
        line = next((s.lineno for s in ast.walk(m.tree) if isinstance(s, ast.ImportFrom) and
                     any((a.asname or a.name) == name for a in s.names)), 1)
        got = None
        if r is None:
            got = 'nothing'
        elif r[0] in ('func', 'class'):
            got = r[1].qual
        elif r[0] == 'ext':
            got = r[1]
            if got.split('.')[0] == 'sympl':
                bad.append(('public name ' + name, m.path, line, 'sympl', 'imported from %s, where it is not defined' % got,
                            'an importable object'))
                continue
        if got is not None and got.split('.')[-1].lstrip('_') != name.lstrip('_'):
            bad.append(('public name ' + name, m.path, line, 'sympl', 'refers to ' + got, 'the object of that name'))
    # imports inside the package that cannot succeed
    for mod in package_modules(w):
        for st in ast.walk(mod.tree):
            if isinstance(st, ast.ImportFrom):
                src = w.prog._abs(mod, st)
                if src is None or src.split('.')[0] != 'sympl':
                    continue
                for a in st.names:
                    sites += 1
                    if src not in w.prog.modules:
                        bad.append(('import of ' + a.name, mod.path, st.lineno, owner(mod, st), 'no module ' + src, 'an importable module'))
                    elif a.name != '*' and a.name not in w.prog.modules[src].bindings and \
                            src + '.' + a.name not in w.prog.modules:
                        bad.append(('import of ' + a.name, mod.path, st.lineno, owner(mod, st),
                                    'not defined in ' + src, 'a name the module defines'))
    return dict(rule='every entry of __all__ is a string naming an object the package imports; every name the package '
                     'imports refers to the object of that name; every import inside the package finds its target',
                violations=bad, undecided='; '.join(und) or None, sites=sites, functions=['sympl'])


ERRORS = {n: n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else __import__('builtins'))
          if isinstance(getattr(__import__('builtins'), n), type) and
          issubclass(getattr(__import__('builtins'), n), BaseException)}
DOCUMENTED = {'InvalidStateError': 'Exception', 'InvalidPropertyDictError': 'Exception', 'SharedKeyError': 'Exception',
              'DependencyError': 'Exception', 'ComponentMissingOutputError': 'Exception',
              'ComponentExtraOutputError': 'Exception'}
BROAD = ('Exception', 'BaseException', 'builtins.Exception', 'builtins.BaseException')


@lint('error_types', 'C24')
def error_types(w):
    bad, und, sites, funcs = [], [], 0, set()
    m = w.prog.modules['sympl._core.exceptions']
    for name, base in sorted(DOCUMENTED.items()):
        sites += 1
        r = w.prog.resolve(w.prog.modules['sympl'], name)
        if r is None:
            r = w.prog.resolve(m, name)
        if r is None or r[0] != 'class':
            bad.append(('error type ' + name, m.path, 1, m.name, 'not a class', 'a class derived from %s' % base))
            continue
        ext = r[1].external_bases()
        roots = [b.split('.')[-1] for b in ext]
        if any(b not in ERRORS for b in roots):
            und.append('bases of %s' % name)
        elif set(roots) != {base} or any(c.node.name in DOCUMENTED for c in r[1].mro()[1:]):
            bad.append(('error type ' + name, m.path, r[1].node.lineno, r[1].qual, 'derives from %s' % (', '.join(roots + [c.node.name for c in r[1].mro()[1:]]) or 'object'),
                        'derives from %s and from no other of them' % base))
    for mod in package_modules(w):
        for st in ast.walk(mod.tree):
            if isinstance(st, ast.Raise) and st.exc is not None:
                sites += 1
                funcs.add(owner(mod, st))
                e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
                r = w.prog.resolve_expr(mod, e)
                if r is None:
                    if isinstance(st.exc, ast.Constant):
                        bad.append(('raise of a value', mod.path, st.lineno, owner(mod, st), ast.unparse(st.exc), 'an exception'))
                    continue
                if isinstance(r, str):
                    if r in ERRORS and not issubclass(getattr(__import__('builtins'), r), Exception):
                        bad.append(('raise of ' + r, mod.path, st.lineno, owner(mod, st),
                                    'an error no handler for Exception sees', 'an error derived from Exception'))
                    elif r == 'NotImplemented':
                        bad.append(('raise of ' + r, mod.path, st.lineno, owner(mod, st), 'not an exception', 'an exception class'))
                    continue
                roots = [b.split('.')[-1] for b in r.external_bases()]
                if not any(b in ERRORS for b in roots) and all(b in ('', 'object') for b in roots):
                    bad.append(('raise of ' + r.qual, mod.path, st.lineno, owner(mod, st),
                                'class without an exception base', 'a class derived from Exception'))
    return dict(rule='the documented error types derive from Exception, and every raise statement raises an exception '
                     'that a handler for Exception sees', violations=bad, undecided='; '.join(und) or None,
                sites=sites, functions=sorted(funcs))


def always_raises(body):
    """Every way through the statements that reaches their end raises: no fall-through, return, continue or break."""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(st, ast.If):
            if any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for x in ast.walk(st)):
                return False
            if st.orelse and always_raises(st.body) and always_raises(st.orelse):
                return True
        elif isinstance(st, (ast.For, ast.While, ast.Try, ast.With)):
            if any(isinstance(x, ast.Return) for x in ast.walk(st)):
                return False
            if isinstance(st, ast.With) and always_raises(st.body):
                return True
    return False


@lint('swallowed_errors', 'C24')
def swallowed_errors(w):
    bad, und, sites, funcs = [], [], 0, set()
    project = {c.qual: c for c in w.prog.classes.values() if c.qual.startswith('sympl.')}

    def kinds(mod, e):
        if e is None:
            return ['BaseException']
        if isinstance(e, ast.Tuple):
            return [k for x in e.elts for k in kinds(mod, x)]
        if isinstance(e, ast.Name) and mod.bindings.get(e.id, ('',))[0] == 'data':
            return kinds(mod, mod.bindings[e.id][1])
        r = w.prog.resolve_expr(mod, e)
        if r is None:
            return ['?']
        return [r] if isinstance(r, str) else [r.qual]

    for mod in package_modules(w):
        for st in ast.walk(mod.tree):
            if isinstance(st, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
                sites += 1
                fn = owner(mod, st)
                funcs.add(fn)
                for h in st.handlers:
                    for k in kinds(mod, h.type):
                        if always_raises(h.body):
                            continue
                        if k in BROAD:
                            bad.append(('handler for every error', mod.path, h.lineno, fn, 'continues after any failure',
                                        're-raises'))
                        elif k in project:
                            bad.append(('handler for ' + k, mod.path, h.lineno, fn,
                                        'continues after an error the package reports to its user', 're-raises'))
                        elif k == '?':
                            und.append('%s:%d' % (mod.name, h.lineno))
                for x in st.finalbody:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Return):
                            bad.append(('return in finally', mod.path, y.lineno, fn, 'discards the error under way',
                                        'lets the error pass'))
            elif isinstance(st, ast.With):
                for it in st.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call):
                        r = w.prog.resolve_expr(mod, c.func)
                        if r == 'contextlib.suppress':
                            sites += 1
                            for a in c.args:
                                for k in kinds(mod, a):
                                    if k in BROAD or k in project:
                                        bad.append(('suppress(%s)' % k, mod.path, st.lineno, owner(mod, st),
                                                    'continues after the failure', 'lets the error pass'))
    return dict(rule='no handler for Exception, BaseException, every error, or an error type of the package continues '
                     'without raising; no return in a finally block; no suppression of these errors',
                violations=bad, undecided='; '.join(und) or None, sites=sites, functions=sorted(funcs))


# ---------------------------------------------------------------- backend
CACHES = ('cache', 'lru_cache', 'cached_property', 'memoize', 'memoized', 'cached')


@lint('backend_lookup', 'C23')
def backend_lookup(w):
    bad, sites, funcs = [], 0, set()
    home = 'sympl._core.backend'

    def target(mod, e):
        """qualified name an expression refers to"""
        if isinstance(e, ast.Name):
            r = w.prog.resolve(mod, e.id)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = w.prog.resolve(mod, e.value.id)
            if r is None or r[0] != 'module':
                return None
            r = w.prog.resolve(r[1], e.attr)
        else:
            return None
        if r is None:
            return None
        if r[0] in ('func', 'class'):
            return r[1].qual
        if r[0] == 'data':
            return r[1].name + '.' + r[2]
        return None

    getter, default, current = home + '.get_backend', home + '.DataArrayBackend', home + '._current_backend'
    callers = {}                # function -> functions it calls, to follow caches
    for mod in package_modules(w):
        funs = functions_of(mod.tree)
        spans = [(f.lineno, f.end_lineno, mod.name + '.' + q, f) for q, f in funs]

        def inside(n):
            """functions whose body holds n (not their defaults or decorators), innermost last"""
            return [(q, f) for a, b, q, f in spans if f.body[0].lineno <= n.lineno <= b]
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load):
                t = target(mod, n)
                if t == current and mod.name != home:
                    sites += 1
                    bad.append(('use of _current_backend', mod.path, n.lineno, owner(mod, n),
                                'reads the backend without get_backend()', 'get_backend() at each use'))
            if isinstance(n, ast.ImportFrom) and w.prog._abs(mod, n) == home and \
                    any(a.name == '_current_backend' for a in n.names):
                bad.append(('import of _current_backend', mod.path, n.lineno, owner(mod, n),
                            'keeps the backend of import time', 'get_backend() at each use'))
            if isinstance(n, ast.Call):
                t = target(mod, n.func)
                own = inside(n)
                if own and t is not None:
                    callers.setdefault(own[-1][0], set()).add(t)
                if t == default and (mod.name != home or own):
                    sites += 1
                    bad.append(('call of DataArrayBackend', mod.path, n.lineno, owner(mod, n),
                                'uses the default backend', 'get_backend()'))
                if t == getter:
                    sites += 1
                    funcs.add(own[-1][0] if own else mod.name)
                    if not own and mod.name != 'sympl._core.constants':
                        bad.append(('call of get_backend', mod.path, n.lineno, owner(mod, n),
                                    'called when the module is imported', 'called at each use'))
        # values of get_backend() kept beyond the call
        for a, b, q, f in spans:
            kept, tainted = [], set()
            glob = {x for g in ast.walk(f) if isinstance(g, (ast.Global, ast.Nonlocal)) for x in g.names}
            if mod.name == home and f.name in ('set_backend', 'get_backend'):
                continue

            def carries(e):
                """the backend itself, or its container type"""
                if isinstance(e, ast.Name):
                    return e.id in tainted
                if isinstance(e, ast.Call):
                    if target(mod, e.func) == getter:
                        return True
                    return isinstance(e.func, ast.Attribute) and e.func.attr == 'get_container_type' and \
                        carries(e.func.value)
                if isinstance(e, ast.Attribute):
                    return carries(e.value)         # a bound method of it
                if isinstance(e, (ast.Tuple, ast.List)):
                    return any(carries(x) for x in e.elts)
                if isinstance(e, ast.IfExp):
                    return carries(e.body) or carries(e.orelse)
                if isinstance(e, ast.BoolOp):
                    return any(carries(x) for x in e.values)
                if isinstance(e, ast.NamedExpr):
                    return carries(e.value)
                return False
            for _ in range(3):
                for st in ast.walk(f):
                    if isinstance(st, ast.Assign) and carries(st.value):
                        for t in st.targets:
                            if isinstance(t, ast.Name) and t.id not in glob:
                                tainted.add(t.id)
                            else:
                                kept.append(st)
                    elif isinstance(st, ast.AnnAssign) and st.value is not None and carries(st.value):
                        (tainted.add(st.target.id) if isinstance(st.target, ast.Name) and st.target.id not in glob
                         else kept.append(st))
            seen = set()
            for st in kept:
                if st.lineno not in seen:
                    seen.add(st.lineno)
                    sites += 1
                    bad.append(('backend kept', mod.path, st.lineno, q, ast.unparse(st), 'get_backend() at each use'))
    reach = {q for q, ts in callers.items() if getter in ts}
    while True:
        more = {q for q, ts in callers.items() if q not in reach and ts & reach}
        if not more:
            break
        reach |= more
    for q in sorted(reach):
        fi = w.prog.funcs.get(q)
        if fi is None:
            continue
        for d in fi.node.decorator_list:
            dn = ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1]
            if dn in CACHES:
                bad.append(('cached result', fi.module.path, fi.node.lineno, q,
                            'keeps what an earlier backend gave (%s)' % dn, 'asks the configured backend at each call'))
    return dict(rule='outside sympl._core.backend the backend is obtained by get_backend() within the function that uses '
                     'it, never from the default class, the module variable, an attribute, a global or a cache',
                violations=bad, undecided=None, sites=sites, functions=sorted(funcs | reach))
