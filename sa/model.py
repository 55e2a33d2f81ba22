"""Obligations: the summary computed for the code equals the required one.

A pair of drivers (`got_x`, `want_x`) in /verif/spec is summarised by the same
analysis; `got_x` goes through the repository's own functions, `want_x` states
the required result.  The summaries are compared projection by projection.
"""
import ast
import os
import signal
import time
from fractions import Fraction
from .terms import *
from .terms import _intern, _str_eq_const, _eq_orient
from .program import Program, ClassInfo, FuncInfo
from .interp import Interp, St, Dead, Abort, KEY, UNDEF, mkD, mkS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMPL_REPO', '/repo')

OPAQUE = '''
sympl.get_numpy_arrays_with_properties
sympl.restore_data_arrays_with_properties
sympl.initialize_numpy_arrays_with_properties
sympl.combine_component_properties
sympl._core.combine_properties.combine_properties
sympl.get_backend
sympl.units_are_compatible
sympl.units_are_same
sympl._core.units.clean_units
sympl.is_valid_unit
sympl._core.units.from_unit_to_another
sympl.get_tracer_names
sympl.get_tracer_unit_dict
sympl.get_tracer_input_properties
sympl._core.tracers.get_quantity_dims
sympl._core.tracers.TracerPacker
sympl._core.wildcard.get_wildcard_matches_and_dim_lengths
sympl.get_component_aliases
sympl.datetime
'''.split()


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


class World(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.prog = Program()
        self.prog.load_package(self.repo, 'sympl')
        specdir = os.path.join(HERE, 'spec')
        self.specs = []
        for f in sorted(os.listdir(specdir)):
            if f.endswith('.py'):
                self.specs.append(self.prog.load_file(os.path.join(specdir, f), 'spec.' + f[:-3]))
        self.prog.link()

    def resolve(self, dotted):
        mod, _, name = dotted.rpartition('.')
        m = self.prog.modules.get(mod)
        if m is not None:
            r = self.prog.resolve(m, name)
            if r is not None and r[0] in ('func', 'class'):
                return r[1].qual
            return None
        c = self.resolve(mod) if mod else None
        if c in self.prog.classes:
            _, mem = self.prog.classes[c].find(name)
            if isinstance(mem, FuncInfo):
                return mem.qual
        return None

    def opaque(self, extra=(), drop=()):
        out = set()
        drop = {self.resolve(d) for d in drop if d}
        for d in list(OPAQUE) + list(extra):
            q = self.resolve(d)
            if q and q not in drop:
                out.add(q)
        return out


class Run(object):
    pass


def kind_of_annotation(w, m, node):
    if node is None:
        return 'any'
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.Name):
        r = w.prog.resolve(m, node.id)
        if r is not None and r[0] == 'class':
            return 'inst:' + r[1].qual
    return 'any'


def run(w, fi, opaque, limit=120, bare=()):
    I = Interp(w.prog, opaque)
    args = []
    for a in fi.node.args.args:
        args.append(sym(a.arg, kind_of_annotation(w, fi.module, a.annotation)))
    I.bare = {a for a in args if a.args[0] in bare}
    R = Run()
    R.I, R.args, R.error, R.dead = I, args, None, False
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        st = St({}, {})
        try:
            R.ret = I.call_func(fi, list(args), {}, st)
            R.ret = I.freeze(R.ret, st)
        except Dead:
            R.ret, R.dead = err('never returns'), True
            st.assume = FALSE
        R.st = st
    except Timeout:
        R.error = 'analysis exceeded its time limit'
    except RecursionError:
        R.error = 'analysis exceeded its depth limit'
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        R.error = 'analysis failed: %s: %s' % (type(e).__name__, e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    R.time = time.time() - t0
    return R


# ------------------------------------------------------------- normalisation
ARITH = {'add', 'sub', 'mul', 'div', 'neg', 'pow', 'sum'}


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    f = Fraction(v).limit_denominator(10 ** 6)
    if v == 0 or abs(float(f) - v) <= 1e-12 * abs(v):
        return f
    return Fraction(v)


class Poly(object):
    """coefficient table over products of atoms with integer exponents"""

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(t):
        return Poly({((t, 1),): Fraction(1)})

    def add(self, o, s=1):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + s * v
            if not d[k]:
                del d[k]
        return Poly(d)

    def mul(self, o):
        d = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                e = dict(k1)
                for t, n in k2:
                    e[t] = e.get(t, 0) + n
                    if not e[t]:
                        del e[t]
                k = tuple(sorted(e.items(), key=lambda x: x[0].id))
                d[k] = d.get(k, 0) + v1 * v2
                if not d[k]:
                    del d[k]
        return Poly(d)

    def inv(self):
        if len(self.d) == 1:
            (k, v), = self.d.items()
            return Poly({tuple((t, -n) for t, n in k): 1 / v})
        return None

    def term(self):
        if not self.d:
            return const(0)
        if len(self.d) == 1:
            (k, v), = self.d.items()
            if not k:
                return num(v)
            if v == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        ms = []
        for k, v in self.d.items():
            ms.append(_intern('mono', (str(v),) + tuple(x for t, n in k for x in (t, n))))
        ms.sort(key=lambda t: t.id)
        return _intern('poly', tuple(ms))


def num(v):
    return const(int(v)) if v.denominator == 1 else _intern('const', ('frac', str(v)))


class Norm(object):
    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            self.memo[t] = r
        return r

    def go(self, t):
        if t.op == 'phi':
            return ite(as_cond(self.atom(t.args[0])), self(t.args[1]), self(t.args[2]))
        if t.op in ('sym', 'const', 'var', 'bv', 'mu', 'ref', 'unk', 'func', 'class', 'ext'):
            if t.op == 'const' and t.args[0] == 'float':
                return num(frac(cval(t)))
            return t
        if t.op == 'lam':
            v = fresh_var('n')
            return lam(v, self(open_lam(t, v)))
        if t.op in ('add', 'sub', 'mul', 'div', 'neg', 'pow') and self.numeric(t):
            args = [self(a) for a in t.args]
            return lift(lambda *a: self.poly_leaf(t.op, a), args)
        if t.op == 'attr' and t.args[1] == 'attrs' and t.args[0].op in ('add', 'sub', 'wattrs'):
            x = t.args[0]
            while x.op in ('add', 'sub') and x.args[0].op != 'phi':
                x = x.args[0]
            if x.op == 'wattrs':
                return self(x.args[1])
            if x is not t.args[0] and x.op not in ('mul', 'div', 'neg', 'pow', 'const', 'phi'):
                return self(_intern('attr', (x, 'attrs')))
        if t.op == 'call' and t.args[0].op in ('builtin', 'ext') and t.args[0].args[0] in ('float',) \
                and len(t.args) == 2:
            return self(t.args[1])
        if t.op == 'float' and len(t.args) == 1:
            return self(t.args[0])
        args = tuple(self(a) if isinstance(a, T) else a for a in t.args)
        return rebuild(t.op, args)

    def atom(self, a):
        args = tuple(self(x) if isinstance(x, T) else x for x in a.args)
        return rebuild(a.op, args)

    def numeric(self, t):
        if t.op not in ('add',):
            return True
        for a in t.args:
            for l in leaves(a):
                if kind(l).split(':')[0] in ('seq', 'list', 'tuple', 'str', 'set') or \
                        l.op in ('seq', 'list', 'str'):
                    return False
                if l.op == 'item' and l.args[1].op == 'slice':
                    return False
        return True

    def poly(self, t):
        if isnum(t):
            return Poly.const(frac(cval(t)))
        if t.op == 'const' and t.args[0] == 'frac':
            return Poly.const(Fraction(t.args[1]))
        if t.op == 'wattrs':        # arithmetic ignores the metadata of its operands
            return self.poly(t.args[0])
        if t.op == 'poly':
            p = Poly()
            for m in t.args:
                k = tuple((m.args[i], m.args[i + 1]) for i in range(1, len(m.args), 2))
                p = p.add(Poly({tuple(sorted(k, key=lambda x: x[0].id)): Fraction(m.args[0])}))
            return p
        return Poly.atom(t)

    def poly_leaf(self, op, a):
        ps = [self.poly(x) for x in a]
        if op == 'neg':
            return Poly().add(ps[0], -1).term()
        if op == 'add':
            return ps[0].add(ps[1]).term()
        if op == 'sub':
            return ps[0].add(ps[1], -1).term()
        if op == 'mul':
            return ps[0].mul(ps[1]).term()
        if op == 'div':
            i = ps[1].inv()
            if i is None:
                i = Poly({((ps[1].term(), -1),): Fraction(1)})
            return ps[0].mul(i).term()
        if op == 'pow' and a[1].op == 'const' and a[1].args[0] == 'int' and 0 <= a[1].args[1] <= 4:
            r = Poly.const(1)
            for _ in range(a[1].args[1]):
                r = r.mul(ps[0])
            return r.term()
        return _intern(op, tuple(a))


def _rb_poly(*ms):
    n = Norm()
    p = Poly()
    outs = []
    for m in ms:
        if m.op == 'phi':
            return lift(_rb_poly, ms)
    for m in ms:
        q = Poly.const(Fraction(m.args[0]))
        for i in range(1, len(m.args), 2):
            b, e = n.poly(m.args[i]), m.args[i + 1]
            if e < 0:
                b = b.inv() or Poly.atom(b.term()).inv()
                e = -e
            for _ in range(e):
                q = q.mul(b)
        p = p.add(q)
    return p.term()


def _rb_mono(c, *xs):
    ts = [x for x in xs if isinstance(x, T)]
    return lift(lambda *a: _intern('mono', (c,) + a), xs)


REBUILD['poly'] = _rb_poly
REBUILD['mono'] = _rb_mono


def attr_source(t):
    """Whose metadata (units) an array expression carries: sums and differences
    keep the left operand's, products and quotients drop it."""
    while t.op in ('add', 'sub'):
        t = t.args[0]
    if t.op == 'phi':
        return ite(_intern('phi', (t.args[0], TRUE, FALSE)), attr_source(t.args[1]), attr_source(t.args[2]))
    if t.op == 'wattrs':
        return t.args[1]
    if t.op in ('mul', 'div', 'neg', 'pow', 'const', 'len', 'poly', 'sum'):
        return NONE
    return t


def mark_sources(t, memo=None):
    """Record the metadata source of every array expression in result position."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('add', 'sub'):
        r = lift(lambda a, b: _intern('carry', (a, b)), (attr_source(t), t))
    elif t.op == 'phi':
        r = ite(_intern('phi', (t.args[0], TRUE, FALSE)), mark_sources(t.args[1], memo),
                mark_sources(t.args[2], memo))
    elif t.op == 'lam':
        v = fresh_var('m')
        r = lam(v, mark_sources(open_lam(t, v), memo))
    elif t.op in ('D', 'seq', 'lit', 'list'):
        r = rebuild(t.op, tuple(mark_sources(a, memo) if isinstance(a, T) else a for a in t.args))
    else:
        r = t
    memo[t] = r
    return r


REBUILD['carry'] = lambda a, b: lift(lambda x, y: _intern('carry', (x, y)), (a, b))


# ---------------------------------------------------------------- comparison
SUSPECT_OPS = {'rec', 'while', 'pre', 'mrec', 'unk', 'bigphi', 'sum', 'cyc', 'setidx', 'pick'}
SUSPECT_EXT = ('numpy.moveaxis', 'numpy.rollaxis', 'numpy.swapaxes', 'numpy.expand_dims',
               'numpy.stack', 'numpy.concatenate', 'functools.', 'itertools.', 'operator.',
               'collections.', 'numpy.squeeze', 'numpy.broadcast', 'numpy.newaxis', 'numpy.full',
               'numpy.zeros', 'numpy.reshape', 'numpy.transpose', 'contextlib.', 'copy.')


def vocab(t, out=None, seen=None):
    if out is None:
        out, seen = set(), set()
    if t in seen:
        return out
    seen.add(t)
    if t.op in SUSPECT_OPS:
        out.add(t.op if t.op != 'pick' else 'pick')
    if t.op == 'ext' and str(t.args[0]).startswith(SUSPECT_EXT):
        out.add(t.args[0])
    if t.op in ('each', 'spread') and t.args[0].op in ('D', 'S'):
        out.add('order of a built mapping')
    for a in t.args:
        if isinstance(a, T):
            vocab(a, out, seen)
    return out


def recurrences(t):
    """The outermost loop results without closed form in a term."""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('rec', 'while', 'mrec'):
            out.add(x)
            continue
        stack.extend(a for a in x.args if isinstance(a, T))
    return out


def merged_domain(t):
    """What is said of the members of several collections at once."""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'some' and x.args[0].op == 'lam':
            body = [b for b in x.args[0].args if isinstance(b, T)][-1]
            if body.op == 'phi' and body.args[0].op == 'some':
                out.add(x)
        stack.extend(a for a in x.args if isinstance(a, T))
    return out


def skeleton(r):
    """What is looped over and how many things are carried around the loop."""
    if r.op == 'while':
        return ('while', skeleton(r.args[1]))
    if r.op == 'rec':
        src = r.args[0]
        return ('rec', src if not recurrences(src) else len(recurrences(src)), len(r.args[3].args), r.args[4])
    return (r.op,)


def operators(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add((x.op, x.args[0]) if x.op in ('ext', 'builtin', 'func') else x.op)
        stack.extend(a for a in x.args if isinstance(a, T))
    return out


def close_event(e, t):
    for b in reversed(e.binders):
        t = lam(b, t) if b in t.fv else t
    return t


def guard_of(e, assume_too=True):
    g = e.g
    for b in reversed(e.binders):
        if b in g.fv:
            g = some(b, g)
    return And(g, e.assume) if assume_too else g


class Diff(object):
    def __init__(self, what, loc, got, want, weak):
        self.what, self.loc, self.got, self.want, self.weak = what, loc, got, want, weak


def raise_table(R, assume_too=True):
    tab, sites = {}, {}
    for e in R.I.events:
        if e.kind != 'raise':
            continue
        c = e.data['exc']
        g = guard_of(e, assume_too)
        if g is FALSE:
            continue
        tab[c] = Or(tab.get(c, FALSE), g)
        sites.setdefault(c, []).append((g, e))
    return tab, sites


def rename_exc(n):
    return n.split('.')[-1]


class Budget(Exception):
    pass


class Same(object):
    """Equality of two summaries under path facts (a conditional bisimulation:
    decisions are followed on both sides together, impossible combinations of
    decisions are skipped, and the rest must agree structurally)."""

    def __init__(self, budget=6000):
        self.budget = budget
        self.memo = {}
        self.vars = {}
        self.fail = None                    # the innermost pair found to differ

    def possible(self, facts):
        pos = [a for a, v in facts if v and a.op == 'some']
        neg = [a for a, v in facts if not v and a.op == 'some']
        if not neg:
            return True
        known = {a: v for a, v in facts}
        declared = {a.args[0] for a, v in facts if v and a.op == 'in' and a.args[1].op == 'attr' and
                    a.args[1].args[1] in PROPERTIES}

        def ground(c):
            for at in atoms_of(c):
                if at in known:
                    c = restrict(c, at, known[at])
                elif at.op == 'eq' and TIMEKEY in at.args and any(x in declared for x in at.args):
                    c = restrict(c, at, False)      # no quantity is named 'time'
            return c
        for p in pos:
            v = fresh_var('w')
            c = as_cond(open_lam(p.args[0], v))
            for n in neg:
                c = And(c, Not(as_cond(open_lam(n.args[0], v))))
                if c is FALSE:
                    return False
            if ground(some(v, c) if any(x.op == 'eq' for x in atoms_of(c)) else c) is FALSE:
                return False
        # a universal fact applied to the terms that occur in the other facts
        cands = set()
        for a, v in facts:
            if a.op == 'in':
                cands.add(a.args[0])
        if not cands:
            return True
        for n in neg:
            for t in cands:
                if ground(as_cond(open_lam(n.args[0], t))) is TRUE:
                    return False
        return True

    def rewrite(self, facts, o):
        """The facts after an equation; None if they contradict one another."""
        out, known = [], {}
        for at, v in facts:
            if contains(at, o[0]) and not (at.op == 'eq' and o[0] in at.args and o[1] in at.args):
                c = as_cond(subst(_intern('phi', (at, TRUE, FALSE)), {o[0]: o[1]}))
                if c is TRUE or c is FALSE:
                    if (c is TRUE) != v:
                        return None
                    continue
                if c.op == 'phi' and c.args[1] is TRUE and c.args[2] is FALSE:
                    at = c.args[0]
                elif c.op == 'phi' and c.args[1] is FALSE and c.args[2] is TRUE:
                    at, v = c.args[0], not v
                else:
                    continue
            if known.setdefault(at, v) != v:
                return None
            out.append((at, v))
        return tuple(out)

    def equal(self, a, s, facts=()):
        if a is s:
            return True
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        # what holds under some facts holds under more of them
        fs = frozenset(facts)
        for old in self.memo.get((a, s), ()):
            if old <= fs:
                return True
        if not self.compare(a, s, facts):
            if self.fail is None and a.op != 'phi' and s.op != 'phi':
                self.fail = (a, s)
            return False
        self.memo.setdefault((a, s), []).append(fs)
        return True

    def binder(self, a, s):
        v = self.vars.get((a, s))
        if v is None:
            v = self.vars[(a, s)] = fresh_var('q')
        return v

    def compare(self, a, s, facts):
        if a.op == 'phi' or s.op == 'phi':
            at = min((x.args[0] for x in (a, s) if x.op == 'phi'), key=lambda x: x.id)
            known = dict(facts).get(at)          # an equation may bring decided atoms back
            for val in (True, False):
                if known is not None and known != val:
                    continue
                x, y = cof(a, at, val), cof(s, at, val)
                if x is y:
                    continue
                f2 = facts + ((at, val),)
                if not self.possible(f2):
                    continue
                lv = TRUE if val else FALSE
                if at.op == 'eq' and val:
                    o = _eq_orient(at)
                    if o is not None:
                        x, y = subst(x, {o[0]: o[1]}), subst(y, {o[0]: o[1]})
                        f2 = self.rewrite(f2, o)
                        if f2 is None:
                            continue
                if not self.equal(assume(x, at, lv), assume(y, at, lv), f2):
                    return False
            return True
        if a.op != s.op and 'poly' in (a.op, s.op):
            ms = [x.args if x.op == 'poly' else (x,) for x in (a, s)]
            if len(ms[0]) + len(ms[1]) > 3:
                return self.same_sum(ms[0], ms[1], facts)
        if a.op == 'poly' and s.op == 'poly' and len(a.args) != len(s.args):
            return self.same_sum(a.args, s.args, facts)
        if a.op != s.op or len(a.args) != len(s.args):
            return False
        if a.op == 'lam':
            v = self.binder(a, s)
            return self.equal(open_lam(a, v), open_lam(s, v), facts)
        if a.op == 'mono' and a.args[0] != s.args[0]:
            return False
        if a.op == 'mono':
            return self.same_product(a, s, facts)
        if a.op == 'poly':
            return self.same_sum(a.args, s.args, facts)
        if a.op == 'pick' and a.args[0] == s.args[0]:
            v = self.binder(a, s)
            ca, cs = as_cond(open_lam(a.args[1], v)), as_cond(open_lam(s.args[1], v))
            return self.equal(ca, cs, facts) and self.equal(
                ite(ca, open_lam(a.args[2], v), UNDEF), ite(cs, open_lam(s.args[2], v), UNDEF), facts)
        if not any(isinstance(x, T) for x in a.args):
            return False
        for x, y in zip(a.args, s.args):
            if isinstance(x, T) and isinstance(y, T):
                if not self.equal(x, y, facts):
                    return False
            elif x != y and not (a.op == 'lam'):
                return False
        return True

    def same_product(self, a, s, facts):
        """Products are equal in any order of their factors."""
        pa = [(a.args[i], a.args[i + 1]) for i in range(1, len(a.args), 2)]
        ps = [(s.args[i], s.args[i + 1]) for i in range(1, len(s.args), 2)]
        for p in list(pa):
            if p in ps:
                pa.remove(p)
                ps.remove(p)
        for x, n in pa:
            for q in ps:
                if q[1] == n and self.equal(x, q[0], facts):
                    ps.remove(q)
                    break
            else:
                return False
        return not ps

    def same_sum(self, a, s, facts):
        """Sums are equal if the coefficients of equal products cancel."""
        groups = []
        todo = [(m, 1) for m in a if m not in s] + [(m, -1) for m in s if m not in a]
        for m, sign in todo:
            if m.op != 'mono':
                m = _intern('mono', ('1', m, 1))
            for g in groups:
                if len(g[0].args) == len(m.args) and (g[0] is m or self.same_product(g[0], m, facts)):
                    g[1] += sign * Fraction(m.args[0])
                    break
            else:
                groups.append([m, sign * Fraction(m.args[0])])
        return all(g[1] == 0 for g in groups)


def implied(c):
    """The literals that hold on every path of c."""
    out = []
    if c is TRUE or c is FALSE:
        return ()
    for at in atoms_of(c):
        if restrict(c, at, False) is FALSE:
            out.append((at, True))
        elif restrict(c, at, True) is FALSE:
            out.append((at, False))
    return tuple(out)


LAST = None


def equal(a, s, facts=()):
    global LAST
    LAST = Same()
    try:
        return LAST.equal(a, s, facts)
    except Budget:
        return None
    except RecursionError:
        return None


class Comparer(object):
    def __init__(self, w, got, want, entry_loc, options):
        self.w, self.A, self.S, self.loc, self.opt = w, got, want, entry_loc, options
        self.norm = Norm()
        self.diffs = []
        self.checked = []

    def weakness(self, a, s, notes=True):
        """Why a difference may be one of form only (None: it is one of meaning)."""
        va = vocab(a)
        v = va - vocab(s)
        v |= va & {'bigphi'}        # alternatives too many to be told apart
        if a.weak:
            v.add('unk')
        if v:
            return 'uses constructs without a normal form: ' + ', '.join(sorted(v))
        if self.A.I.notes:
            return 'analysis notes: ' + '; '.join(sorted({n[0] for n in self.A.I.notes})[:3])
        a0, s0 = a, s
        fail = LAST.fail if LAST is not None else None
        if fail is not None and fail[0] not in (TRUE, FALSE) and fail[1] not in (TRUE, FALSE):
            a, s = fail
        if 'setidx' in vocab(s0) and 'setidx' not in va and not operators(a0) <= operators(s0):
            return 'an assignment at a position replaced by another form'
        if len(merged_domain(a0)) > len(merged_domain(s0)):
            return 'collections merged before they are met'
        ra, rs = recurrences(a), recurrences(s)
        new, lost = ra - rs, rs - ra
        if not new and not lost:
            return None
        for r in new:
            if not any(skeleton(r) == skeleton(q) for q in lost):
                return 'a loop of another form'
        if len(lost) > len(new) and not (set(atoms_of(a)) <= set(atoms_of(s)) if a.op == 'phi' or a in (TRUE, FALSE)
                                         else operators(a) <= operators(s)):
            return 'a loop replaced by another form'
        if len(recurrences(s0)) > len(recurrences(a0)) and not operators(a0) <= operators(s0):
            return 'a loop replaced by another form'
        return None

    def same(self, what, a, s, loc=None, c=TRUE):
        self.checked.append(what)
        if a is s:
            return True
        if 'attrs' in self.opt:
            a, s = mark_sources(a), mark_sources(s)
        a, s = self.norm(a), self.norm(s)
        if a is s:
            return True
        if c is not TRUE:
            a, s = constrain(a, c), constrain(s, c)
            if a is s:
                return True
            a, s = deep_given(a, c), deep_given(s, c)
            if a is s:
                return True
        e = equal(a, s, implied(c))
        if e:
            return True
        self.diffs.append(Diff(what, loc or self.loc, a, s, 'comparison budget exhausted'
                               if e is None else self.weakness(a, s)))
        return False

    def compare(self):
        A, S = self.A, self.S
        c = self.norm(And(A.st.assume, S.st.assume))
        self.c = c
        lost = self.norm(And(S.st.assume, Not(A.st.assume)))
        if lost is not FALSE and not A.dead:
            lost = And(lost, Not(self.norm(Or(*raise_table(A, False)[0].values()))))
            if lost is not FALSE and not self.opt.get('exc') and 'noraise' not in self.opt \
                    and not equal(lost, FALSE):
                self.diffs.append(Diff('paths without an outcome', self.loc, lost, FALSE,
                                       'paths without an outcome'))
        if self.opt.get('exc'):
            fa, fs = raise_table(A, False)[0], raise_table(S, False)[0]
            sites = raise_table(A, False)[1]
            for cl in self.opt['exc'].split(','):
                loc = self.loc
                gs = self.norm(fs.get(cl, FALSE))
                for g, e in sites.get(cl, []):
                    if And(self.norm(g), Not(gs)) is not FALSE:
                        loc = e.loc
                        break
                self.same('condition of ' + cl, fa.get(cl, FALSE), fs.get(cl, FALSE), loc)
        elif 'noraise' not in self.opt:
            self.raises()
        if 'noret' not in self.opt:
            if A.dead != S.dead:
                self.same('normal return', TRUE if not A.dead else FALSE, TRUE if not S.dead else FALSE)
            else:
                self.same('returned value', A.ret, S.ret, c=c)
        for name in self.opt.get('heap', '').split(','):
            if not name:
                continue
            for a in A.args:
                if a.args[0] == name or name == '*':
                    va, vs = A.I.freeze(a, A.st), S.I.freeze(a, S.st)
                    self.same('final contents of ' + a.args[0], va, vs, c=c)
        held = {n for n in self.opt.get('heap', '').split(',') if n and 'deep' not in self.opt}
        if held:
            self.inner_changes(held)
        if 'owned' in self.opt:
            self.owned_changes()
        for name in self.opt.get('glob', '').split(','):
            if name:
                q = name.rsplit('.', 1)
                m = self.w.prog.modules['sympl.' + q[0] if not q[0].startswith('sympl') else q[0]]
                G = A.I.glob(m, q[1])
                va = A.I.freeze(A.st.heap.get((G, 'val'), G), A.st)
                vs = S.I.freeze(S.st.heap.get((G, 'val'), G), S.st)
                self.same('global ' + name, va, vs, c=c)
        if self.opt.get('calls'):
            self.calls(self.opt['calls'].split(','))
        return self.diffs

    def inner_changes(self, names):
        """Objects reachable from the arguments that the code modifies and the requirement does not."""
        def changed(R):
            out = []
            for e in R.I.events:
                if e.kind != 'mutate':
                    continue
                t, d = e.data['target'], 0
                while t.op in ('item', 'pre', 'attr', 'pick') and isinstance(t.args[0], T):
                    t, d = t.args[0], d + 1
                if (d or e.data['what'] in ('setattr', 'inplace')) and t.op == 'sym' and t.args[0] in names:
                    g = self.norm(And(e.g, e.assume))
                    if g is not FALSE:
                        out.append((e, g))
            return out
        self.checked.append('objects held by ' + ', '.join(sorted(names)))
        mine = changed(self.A)
        if not mine or changed(self.S):
            return
        e, g = mine[0]
        weak = None
        if self.A.I.notes:
            weak = 'analysis notes: ' + '; '.join(sorted({n[0] for n in self.A.I.notes})[:3])
        elif e.g.weak or e.data['target'].weak:
            weak = 'the condition of the change is not known'
        self.diffs.append(Diff('change of an object the caller holds', e.loc, e.data['target'], g, weak))

    def owned_changes(self):
        """Objects a component's own routine returned, or its declarations, altered in place."""
        def foreign(t):
            # -> the name of the declarations, '' for what a routine returned, None for neither
            while t.op in ('item', 'pre', 'attr', 'pick') and isinstance(t.args[0], T):
                if t.op == 'attr' and t.args[0].op == 'sym' and str(t.args[1]).endswith('_properties'):
                    return t.args[1]
                t = t.args[0]
            if t.op != 'call' or not t.args or not isinstance(t.args[0], T):
                return None
            f = t.args[0]
            return '' if f.op == 'sym' or f.op == 'attr' and f.args[1] == 'array_call' else None

        def shared(g, name):
            # the declarations are those of the class: not in the instance, and not computed
            for x in atoms_of(g):
                if x.op == 'in' and x.args[0] == const(name) and x.args[1].op == 'attr' \
                        and x.args[1].args[1] == '__dict__':
                    g = assume(g, x, FALSE)
                elif x.op == 'isinst' and x.args[0].op == 'attr' and x.args[0].args[1] == name \
                        and 'property' in show(x.args[1], 2):
                    g = assume(g, x, FALSE)
            return self.norm(g)

        def changed(R):
            out = []
            for e in R.I.events:
                t = e.data['target'] if e.kind == 'mutate' else None
                name = foreign(t) if t is not None else None
                if name is None or e.data['what'] == 'inplace' and name and \
                        t.op == 'item' and t.args[1] == const('units'):
                    continue
                g = self.norm(And(e.g, e.assume))
                if name:
                    g = shared(g, name)
                if g is not FALSE:
                    out.append((e, g, name))
            return out
        self.checked.append('objects the component owns')
        mine = changed(self.A)
        if not mine or changed(self.S):
            return
        e, g, name = mine[0]
        weak = None
        if self.A.I.notes:
            weak = 'analysis notes: ' + '; '.join(sorted({n[0] for n in self.A.I.notes})[:3])
        elif e.g.weak or e.data['target'].weak:
            weak = 'the condition of the change is not known'
        elif name and any(op in show(x, 8) for x in atoms_of(g)
                          for op in ('__dict__', 'vars', '__class__', 'type(', 'getattr', 'property)')):
            weak = 'another test of who owns the declarations'
        self.diffs.append(Diff('change of an object the component owns', e.loc, e.data['target'], g, weak))

    def raises(self):
        A, S = self.A, self.S
        # conditions site by site, each relative to the checks before it
        fa, fs = raise_table(A, False)[0], raise_table(S, False)[0]
        if set(fa) == set(fs):
            for cl in sorted(fa):
                ga, gs = self.norm(fa[cl]), self.norm(fs[cl])
                if ga is not gs and not equal(ga, gs):
                    break
            else:
                self.checked.append('raise condition')
                self.checked.extend('condition of ' + cl for cl in sorted(fa))
                return
        ta, sa = raise_table(A)
        ts, ss = raise_table(S)
        tot_a = self.norm(Or(*ta.values()))
        tot_s = self.norm(Or(*ts.values()))
        self.checked.append('raise condition')
        e = tot_a is tot_s or equal(tot_a, tot_s)
        if not e:
            # locate a site the requirement does not ask for
            loc, what = self.loc, 'raise condition'
            extra = And(tot_a, Not(tot_s))
            if extra is not FALSE:
                for cl, sites in sa.items():
                    for g, e in sites:
                        if And(self.norm(g), Not(tot_s)) is not FALSE:
                            loc, what = e.loc, 'raises %s when it should not' % cl
                            break
            else:
                what = 'does not raise when it should (%s)' % ', '.join(
                    sorted(cl for cl in ts if And(self.norm(ts[cl]), Not(tot_a)) is not FALSE))
            self.diffs.append(Diff(what, loc, tot_a, tot_s, 'comparison budget exhausted'
                                   if e is None else self.weakness(tot_a, tot_s)))
            return
        for cl in sorted(set(ta) | set(ts)):
            self.checked.append('condition of ' + cl)
            ga, gs = self.norm(ta.get(cl, FALSE)), self.norm(ts.get(cl, FALSE))
            if ga is not gs and not equal(ga, gs):
                weak = self.weakness(ga, gs)
                # only a different precedence between failing checks
                if weak is None and set(ta) == set(ts):
                    weak = 'precedence of checks'
                loc = self.loc
                for g, e in sa.get(cl, []):
                    if And(self.norm(g), Not(gs)) is not FALSE:
                        loc = e.loc
                        break
                self.diffs.append(Diff('condition under which %s is raised' % cl, loc, ga, gs, weak))

    def selected(self, R, names):
        out = []
        for e in R.I.events:
            if e.kind in ('enter', 'exit') and '!with' in names:
                t = _intern('evt', (self.norm(And(e.g, e.assume)), self.norm(mk(e.kind, e.data['ctx']))))
                out.append((self.norm(close_event(e, t)), e))
                continue
            if e.kind == 'mutate' and '!mutate' in names:
                d = e.data
                t = mk('change', const(d['what']), d['target'], *[
                    d[k] for k in ('key', 'value') if isinstance(d.get(k), T)])
                t = _intern('evt', (self.norm(And(e.g, e.assume)), self.norm(t)))
                out.append((self.norm(close_event(e, t)), e))
                continue
            if e.kind != 'call':
                continue
            f = e.data['f']
            nm = None
            if f.op == 'attr':
                nm = '.' + f.args[1]
            elif f.op in ('func', 'ext', 'class', 'builtin'):
                nm = f.args[0]
            elif f.op == 'sym':
                nm = f.args[0]
            elif f.op in ('item', 'var', 'bv'):
                nm = '<element>'
            if any(nm == n or (nm and n.endswith('*') and nm.startswith(n[:-1])) for n in names):
                g = And(e.g, e.assume)
                t = _intern('evt', (self.norm(g), self.norm(e.data['call'])))
                out.append((self.norm(close_event(e, t)), e))
        return out

    def folded(self, events):
        """Neighbouring calls of which at most one is made, as one call."""
        groups = []
        for t, e in events:
            if e.kind != 'call':
                g, c = TRUE, t
            else:
                g, c = self.norm(And(e.g, e.assume)), e.data['call']
            if g is FALSE:
                continue
            if groups and groups[-1][0] == list(e.binders) and And(groups[-1][1], g) is FALSE:
                b, h, v = groups[-1]
                groups[-1] = (b, Or(h, g), ite(g, c, v))
            else:
                groups.append((list(e.binders), g, ite(g, c, ABSENT)))
        out = []
        for b, g, v in groups:
            for x in reversed(b):
                v = lam(x, v) if x in v.fv else v
            out.append(self.norm(v))
        return out

    def calls(self, names):
        A, S = self.selected(self.A, names), self.selected(self.S, names)
        self.checked.append('calls of ' + ','.join(names))
        la, ls = [t for t, _ in A], [t for t, _ in S]
        if 'ordered' in self.opt:
            same = la == ls
        else:
            same = sorted(x.id for x in la) == sorted(x.id for x in ls)
        if same:
            return
        fa, fs = self.folded(A), self.folded(S)
        if len(fa) == len(fs) and all(x is y or equal(x, y) for x, y in zip(fa, fs)):
            return
        loc = self.loc
        extra = list(la)
        for x in ls:
            if x in extra:
                extra.remove(x)
        for t, e in A:
            if t in extra:
                loc = e.loc
                break
        a, s = _intern('evs', tuple(la)), _intern('evs', tuple(ls))
        self.diffs.append(Diff('calls of ' + ', '.join(names), loc, a, s, self.weakness(a, s)))


def deep_given(t, c):
    """Simplify nested decisions (under binders, inside calls) by c."""
    memo = {}
    atoms = {}
    for at in atoms_of(c):
        if restrict(c, at, True) is FALSE:
            atoms[at] = FALSE
        elif restrict(c, at, False) is FALSE:
            atoms[at] = TRUE
    t = given(t, c)
    if not atoms:
        return t

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'phi':
            v = atoms.get(t.args[0])
            if v is TRUE:
                r = go(t.args[1])
            elif v is FALSE:
                r = go(t.args[2])
            else:
                r = ite(as_cond(rebuild(t.args[0].op, tuple(go(a) if isinstance(a, T) else a
                                                            for a in t.args[0].args))),
                        go(t.args[1]), go(t.args[2]))
        elif t.op == 'lam':
            v = fresh_var('g')
            r = lam(v, go(open_lam(t, v)))
        elif any(isinstance(a, T) for a in t.args):
            r = rebuild(t.op, tuple(go(a) if isinstance(a, T) else a for a in t.args))
        else:
            r = t
        memo[t] = r
        return r
    return go(t)


# --------------------------------------------------------------- obligations
class Obligation(object):
    def __init__(self, name, props, options, got, want, anchor, focus=()):
        self.name, self.props, self.options = name, props, options
        self.got, self.want, self.anchor, self.focus = got, want, anchor, dict(focus)


def obligations(w):
    out = []
    for m in w.specs:
        for n, b in m.bindings.items():
            if b[0] != 'func' or not n.startswith('got_'):
                continue
            got = b[1]
            want = m.bindings.get('want_' + n[4:])
            doc = ast.get_docstring(got.node) or ''
            head = doc.split('\n')[0].split('|')
            props = head[0].split()
            opts = {}
            for o in head[1:]:
                for tok in o.split():
                    k, _, v = tok.partition('=')
                    opts[k] = v
            text = ast.dump(want[1].node)
            if 'noraise' not in opts and 'Raise(' in text and 'C24' not in props:
                props.append('C24:raise')     # says when a documented error is raised
            if 'get_backend' in text and 'C23' not in props:
                props.append('C23')     # says what is asked of the configured backend
            # a property may rest on one aspect only of what an obligation compares
            focus = dict(q.split(':') for q in props if ':' in q)
            props = [q.split(':')[0] for q in props]
            out.append(Obligation(n[4:], props, opts, got, want[1], opts.get('at'), focus))
    return out


def anchor_loc(w, ob):
    if ob.anchor:
        q = w.resolve(ob.anchor)
        if q in w.prog.funcs:
            fi = w.prog.funcs[q]
            return (fi.module.path, fi.node.lineno, q)
        if q in w.prog.classes:
            ci = w.prog.classes[q]
            return (ci.module.path, ci.node.lineno, q)
    return (ob.got.module.path, ob.got.node.lineno, ob.name)


class Outcome(object):
    pass


def focused(ob, prop):
    opts = dict(ob.options)
    if prop == 'C05':
        opts['owned'] = ''
    only = ob.focus.get(prop)
    if only:
        for k in ('heap', 'calls', 'glob'):
            opts.pop(k, None)
        opts['noret'] = ''
        if only == 'owned':
            opts['noraise'] = ''
            opts.pop('exc', None)
    return opts


def missing_parts(w, ob):
    """Internal names an obligation speaks of which the repository no longer has (or calls otherwise):
    after such a change it has to be stated anew, and nothing is decided."""
    if not hasattr(w, 'attribute_names'):
        w.attribute_names = set()
        for name, mod in w.prog.modules.items():
            if name == 'sympl' or name.startswith('sympl.'):
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute):
                        w.attribute_names.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        w.attribute_names.add(n.name)
                    elif isinstance(n, ast.Name):
                        w.attribute_names.add(n.id)
    m, out = ob.got.module, []
    public = w.prog.modules['sympl'].bindings
    for n in [x for part in (ob.got, ob.want) for x in ast.walk(part.node)]:
        if isinstance(n, ast.Attribute):
            b = w.prog.resolve(m, n.value.id) if isinstance(n.value, ast.Name) else None
            if b and b[0] == 'module':
                if '._' in b[1].name and w.prog.resolve(b[1], n.attr) is None:
                    out.append(b[1].name + '.' + n.attr)
            elif n.attr.startswith('_') and not n.attr.endswith('__') and n.attr not in w.attribute_names:
                out.append(n.attr)
        elif isinstance(n, ast.Name):
            b = w.prog.resolve(m, n.id)
            if b and b[0] in ('ext', 'modext') and b[1].startswith('sympl.') and '._' in b[1]:
                out.append(b[1])
        elif isinstance(n, ast.Call):
            b = None
            if isinstance(n.func, ast.Name):
                b = w.prog.resolve(m, n.func.id)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                b = w.prog.resolve(m, n.func.value.id)
                b = w.prog.resolve(b[1], n.func.attr) if b and b[0] == 'module' else None
            if not b or b[0] != 'func' or b[1].node.name in public or '._' not in b[1].qual:
                continue
            a = b[1].node.args
            names = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
            given = {k.arg for k in n.keywords}
            if any(isinstance(x, ast.Starred) for x in n.args) or None in given:
                continue
            needed = set(names[len(n.args):len(names) - len(a.defaults)]) - given
            if (len(n.args) > len(names) and not a.vararg) or needed or (
                    given - set(names) - {x.arg for x in a.kwonlyargs} and not a.kwarg):
                out.append('such call of ' + b[1].qual)
    return out


def check(w, ob, limit=120, variant=0, prop=None):
    o = Outcome()
    o.ob, o.status, o.reason, o.diffs, o.checked = ob, 'holds', None, [], []
    gone = missing_parts(w, ob)
    if gone:
        o.status, o.reason = 'undecided', 'there is no %s any more' % gone[0]
        o.time, o.functions, o.events, o.stats = 0., [], 0, {'calls': 0, 'functions': set(), 'loops': 0, 'branches': 0}
        return o
    opq = w.opaque(ob.options.get('opaque', '').split(','), ob.options.get('inline', '').split(','))
    bare = ob.options.get('bare', '').split(',')
    # another order of the analyses numbers the terms, and so orders the decisions, differently
    if variant == 2:
        for other in obligations(w):
            if other.got.module is ob.got.module and other is not ob and not other.name.startswith(ob.name):
                run(w, other.want, opq, 10)
                break
    if variant:
        s = run(w, ob.want, opq, limit, bare)
    a = run(w, ob.got, opq, limit, bare)
    if not variant:
        s = run(w, ob.want, opq, limit, bare)
    o.time = a.time + s.time
    o.functions = sorted(q for q in a.I.stats['functions'] if not q.startswith('spec.'))
    o.events = len(a.I.events)
    o.stats = a.I.stats
    if s.error:
        o.status, o.reason = 'error', 'requirement: ' + s.error
        return o
    if a.error:
        o.status, o.reason = 'undecided', a.error
        return o
    cmp_ = Comparer(w, a, s, anchor_loc(w, ob), focused(ob, prop))
    stop = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        o.diffs = cmp_.compare()
    except (RecursionError, Timeout) as e:
        stop = 'comparison exceeded its %s limit' % ('depth' if isinstance(e, RecursionError) else 'time')
        o.diffs = [d for d in cmp_.diffs if not d.weak]      # what differed before that stands
        o.status, o.reason = 'undecided', stop
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    o.checked = cmp_.checked
    if o.diffs:
        strong = [d for d in o.diffs if not d.weak]
        if strong:
            o.status = 'violated'
        else:
            o.status, o.reason = 'undecided', o.diffs[0].weak
    return o
