"""Hash-consed value graph with gated (MTBDD) joins.

A term is an immutable, interned node.  Conditions are ordered decision
diagrams over canonical atoms; values are the same diagrams with arbitrary
leaves, so that control-flow joins have one normal form irrespective of how
the branches were written down.
"""
import sys
sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ('op', 'args', 'id', 'h', 'fv', 'weak')

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]
EMPTY = frozenset()


def _intern(op, args):
    key = (op,) + tuple(args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = tuple(args)
    _count[0] += 1
    t.id = _count[0]
    h = 0
    fv = EMPTY
    weak = op == 'unk'
    for a in args:
        if isinstance(a, T):
            if a.h > h:
                h = a.h
            if a.fv:
                fv = fv | a.fv
            weak = weak or a.weak
    if op in ('var', 'mu'):
        fv = frozenset([t])
    t.h = h
    t.fv = fv
    t.weak = weak
    _table[key] = t
    return t


# ----------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return _intern('const', ('bool', v))
    if isinstance(v, int):
        return _intern('const', ('int', v))
    if isinstance(v, float):
        return _intern('const', ('float', repr(v)))
    if v is None:
        return _intern('const', ('none', None))
    if isinstance(v, str):
        return _intern('const', ('str', v))
    if isinstance(v, bytes):
        return _intern('const', ('bytes', v))
    if v is Ellipsis:
        return _intern('const', ('ellipsis', None))
    return _intern('const', (type(v).__name__, repr(v)))


def cval(t):
    k, v = t.args
    return float(v) if k == 'float' else v


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ABSENT = _intern('absent', ())

_fresh = [0]


def fresh_var(tag='v'):
    _fresh[0] += 1
    return _intern('var', (tag, _fresh[0]))


KEY = fresh_var('KEY')


def fresh_mu(tag, kind):
    _fresh[0] += 1
    return _intern('mu', (tag, kind, _fresh[0]))


def sym(name, kind='any'):
    return _intern('sym', (name, kind))


def unk(reason):
    _fresh[0] += 1
    return _intern('unk', (reason, _fresh[0]))


def isconst(t, v=Ellipsis):
    if t.op != 'const':
        return False
    if v is Ellipsis:
        return True
    return t is const(v)


def isstr(t):
    return t.op == 'const' and t.args[0] == 'str'


def isnum(t):
    return t.op == 'const' and t.args[0] in ('int', 'float', 'bool')


# ------------------------------------------------------------------- binders
def lam(var, body):
    h = 1 + body.h
    bv = _intern('bv', (h,))
    t = subst(body, {var: bv}, close=True)
    node = _intern('lam', (t, h))
    if node.h < h:
        node.h = h
    return node


def lam_height(l):
    return l.args[1]


def open_lam(l, value):
    return subst(l.args[0], {_intern('bv', (l.args[1],)): value})


def app(l, value):
    return open_lam(l, value)


# --------------------------------------------------------------- substitution
def _contains_memo(t, keys, memo):
    r = memo.get(t)
    if r is None:
        if t in keys:
            r = True
        else:
            r = False
            for a in t.args:
                if isinstance(a, T) and _contains_memo(a, keys, memo):
                    r = True
                    break
        memo[t] = r
    return r


def contains(t, keys):
    if isinstance(keys, T):
        keys = {keys}
    return _contains_memo(t, keys, {})


def subst(t, m, close=False):
    if not m:
        return t
    return _subst(t, m, {}, {}, close)


def _subst(t, m, memo, cmemo, close):
    r = memo.get(t)
    if r is not None:
        return r
    v = m.get(t)
    if v is not None:
        memo[t] = v
        return v
    if not _contains_memo(t, m, cmemo):
        memo[t] = t
        return t
    if t.op == 'lam':
        if close:
            # only renaming a fresh variable to a canonical bound one
            body = _subst(t.args[0], m, memo, cmemo, close)
            r = _intern('lam', (body, t.args[1]))
            if r.h < t.args[1]:
                r.h = t.args[1]
        else:
            v = fresh_var()
            body = subst(t.args[0], {_intern('bv', (t.args[1],)): v})
            body = _subst(body, m, {}, {}, close)
            r = lam(v, body)
    else:
        args = tuple(_subst(a, m, memo, cmemo, close) if isinstance(a, T) else a
                     for a in t.args)
        r = rebuild(t.op, args)
    memo[t] = r
    return r


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


# ------------------------------------------------------------ decision nodes
BOOL_ATOMS = {'in', 'eq', 'is', 'lt', 'isinst', 'hasattr', 'truthy', 'some',
              'raises', 'callable', 'idx', 'issub', 'var_bool', 'loopex'}
NOLIFT = {'lam', 'some', 'pick', 'each', 'seq', 'D', 'S', 'list', 'rec', 'pre',
          'while', 'phi', 'obj', 'sum', 'mrec', 'prev', 'lit', 'spread', 'unk', 'bigphi'}
MAXLEAF = 96


def top(t):
    return t.args[0] if t.op == 'phi' else None


def cof(t, atom, val):
    if t.op == 'phi' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != 'phi':
        if c.op in BOOL_ATOMS:
            c = _intern('phi', (c, TRUE, FALSE))
        elif c.op == 'unk':
            c = _intern('phi', (_intern('truthy', (c,)), TRUE, FALSE))
        else:
            raise TypeError('condition is not boolean: %r' % (c,))
        return ite(c, a, b)
    tops = [x.args[0] for x in (c, a, b) if x.op == 'phi']
    at = min(tops, key=lambda x: x.id)
    hi = ite(cof(c, at, True), cof(a, at, True), cof(b, at, True))
    lo = ite(cof(c, at, False), cof(a, at, False), cof(b, at, False))
    r = mkphi(at, hi, lo)
    _ite_memo[key] = r
    return r


def _eq_orient(at):
    """Which side of an equality atom may replace the other."""
    x, y = at.args
    if y.op == 'const' and x.op != 'const':
        return x, y
    if x.op == 'const' and y.op != 'const':
        return y, x
    if y is KEY and KEY not in x.fv:
        return y, x                 # the key of a table is never brought under another table
    if x.op in ('var', 'bv') and not contains(y, x):
        return x, y
    if y.op in ('var', 'bv') and not contains(x, y):
        return y, x
    return None


def _eq_point(at, var):
    """The value an equality atom gives to var, or None."""
    x, y = at.args
    if x is var and var not in y.fv:
        return y
    if y is var and var not in x.fv:
        return x
    return None


def mkphi(at, hi, lo):
    if hi is lo:
        return hi
    if at.op == 'eq':
        o = _eq_orient(at)
        if o is not None:
            x, c = o
            if hi.op not in ('const', 'absent') and contains(hi, x):
                hi2 = subst(hi, {x: c})
                if hi2 is not hi:
                    if hi2 is lo:
                        return lo
                    t2 = top(hi2)
                    if t2 is not None and t2.id <= at.id:
                        return ite(_intern('phi', (at, TRUE, FALSE)), hi2, lo)
                    hi = hi2
            if lo.op != 'const' and contains(lo, x) and subst(lo, {x: c}) is hi:
                return lo
    th, tl = top(hi), top(lo)
    if (th is not None and th.id <= at.id) or (tl is not None and tl.id <= at.id):
        if at is th or at is tl:
            return mkphi(at, cof(hi, at, True), cof(lo, at, False))
        return ite(_intern('phi', (at, TRUE, FALSE)), hi, lo)
    return _intern('phi', (at, hi, lo))


def _rb_phi(atom, hi, lo):
    return ite(as_cond(atom), hi, lo)


REBUILD['phi'] = _rb_phi
REBUILD['lam'] = lambda body, h: _intern('lam', (body, h))


def as_cond(t):
    """Read a term as a condition."""
    if t is TRUE or t is FALSE:
        return t
    if t.op == 'phi':
        hi, lo = as_cond(t.args[1]), as_cond(t.args[2])
        if hi is t.args[1] and lo is t.args[2]:
            return t
        return ite(_intern('phi', (t.args[0], TRUE, FALSE)), hi, lo)
    if t.op in BOOL_ATOMS:
        return _intern('phi', (t, TRUE, FALSE))
    return truth(t)


def atom(op, *args):
    """Boolean atom, lifted over decision nodes in its arguments."""
    if op in ('isinst', 'hasattr'):
        return lift(lambda *a: _type_fact(op, a), args)
    return lift(lambda *a: _intern('phi', (_intern(op, a), TRUE, FALSE)), args)


QUANTITY_ATTRS = {'copy', 'attrs', 'dims', 'shape', 'values', 'to_units'}


def _type_fact(op, a):
    o, t = a
    if op == 'hasattr':
        if t.op == 'const' and t.args[1] in QUANTITY_ATTRS and kind(o) == 'quantity':
            return TRUE
    elif kind(o) == 'quantity':
        if (t.op == 'call' and callname(t) == '.get_container_type') or \
                (t.op == 'class' and t.args[0].endswith('.DataArray')):
            return TRUE
    return _intern('phi', (_intern(op, a), TRUE, FALSE))


def Not(a):
    return ite(a, FALSE, TRUE)


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def leaves(t, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if t.op == 'phi':
        leaves(t.args[1], out, seen)
        leaves(t.args[2], out, seen)
    else:
        out.append(t)
    return out


def atoms_of(t, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if t.op == 'phi':
        if t.args[0] not in out:
            out.append(t.args[0])
        atoms_of(t.args[1], out, seen)
        atoms_of(t.args[2], out, seen)
    return out


def map_leaves(f, t, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        if t.op == 'phi':
            hi = map_leaves(f, t.args[1], memo)
            lo = map_leaves(f, t.args[2], memo)
            r = ite(_intern('phi', (t.args[0], TRUE, FALSE)), hi, lo)
        else:
            r = f(t)
        memo[t] = r
    return r


def lift(f, args):
    """Apply f to the leaves of its (decision diagram) arguments."""
    args = tuple(args)
    phis = [a for a in args if isinstance(a, T) and a.op == 'phi']
    if not phis:
        return f(*args)
    if len(phis) > 1:
        n = 1
        for p in phis:
            n *= len(leaves(p))
        if n > MAXLEAF * 8:
            return f(*[_intern('bigphi', (a,)) if isinstance(a, T) and a.op == 'phi' else a
                       for a in args])
    memo = {}

    def go(args):
        r = memo.get(args)
        if r is not None:
            return r
        tops = [a.args[0] for a in args if isinstance(a, T) and a.op == 'phi']
        if not tops:
            r = f(*args)
        else:
            at = min(tops, key=lambda x: x.id)
            hi = go(tuple(cof(a, at, True) if isinstance(a, T) else a for a in args))
            lo = go(tuple(cof(a, at, False) if isinstance(a, T) else a for a in args))
            r = ite(_intern('phi', (at, TRUE, FALSE)), hi, lo)
        memo[args] = r
        return r
    return go(args)


def mk(op, *args):
    if op in NOLIFT:
        return _intern(op, args)
    if op in BOOL_ATOMS:
        return atom(op, *args)
    return lift(lambda *a: _intern(op, a), args)


# ---------------------------------------------------------------- constrain
def constrain(f, c, memo=None):
    """Generalised cofactor: canonical representative of f on the set c."""
    if memo is None:
        memo = {}
    if c is TRUE or c is FALSE:
        return f
    if f.op != 'phi':
        return f
    key = (f, c)
    r = memo.get(key)
    if r is not None:
        return r
    ta, tc = f.args[0], c.args[0]
    at = ta if ta.id <= tc.id else tc
    c1, c0 = cof(c, at, True), cof(c, at, False)
    f1, f0 = cof(f, at, True), cof(f, at, False)
    if c1 is FALSE:
        r = constrain(f0, c0, memo)
    elif c0 is FALSE:
        r = constrain(f1, c1, memo)
    else:
        r = mkphi(at, constrain(f1, c1, memo), constrain(f0, c0, memo))
    memo[key] = r
    return r


def given(f, c):
    """Drop from f the decisions settled by c (small result, not canonical)."""
    if c is TRUE or c is FALSE or f.op != 'phi':
        return f
    ca = set(atoms_of(c))
    memo = {}

    def go(f, c):
        if f.op != 'phi' or c is TRUE or c is FALSE:
            return f
        key = (f, c)
        r = memo.get(key)
        if r is not None:
            return r
        at = f.args[0]
        if at in ca:
            c1, c0 = restrict(c, at, True), restrict(c, at, False)
            if c1 is FALSE:
                r = go(f.args[2], c0)
            elif c0 is FALSE:
                r = go(f.args[1], c1)
            else:
                r = mkphi(at, go(f.args[1], c1), go(f.args[2], c0))
        else:
            r = mkphi(at, go(f.args[1], c), go(f.args[2], c))
        memo[key] = r
        return r
    return go(f, c)


def restrict(t, at, val, memo=None):
    """Cofactor of t by an atom anywhere in the order."""
    if memo is None:
        memo = {}
    if t.op != 'phi' or t.args[0].id > at.id:
        return t
    r = memo.get(t)
    if r is None:
        if t.args[0] is at:
            r = t.args[1] if val else t.args[2]
        else:
            r = mkphi(t.args[0], restrict(t.args[1], at, val, memo),
                      restrict(t.args[2], at, val, memo))
        memo[t] = r
    return r


def assume(t, at, val):
    """t with the decision `at` settled everywhere, also inside nested terms."""
    if t is TRUE or t is FALSE or not contains(t, at):
        return t
    return subst(t, {at: val})


# ------------------------------------------------------------------ existence
def primes(t):
    """All prime implicants of a boolean diagram, as frozensets of literals."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t is TRUE:
            r = {frozenset()}
        elif t is FALSE:
            r = set()
        else:
            at, hi, lo = t.args
            both = And(hi, lo)
            p = set(go(both))
            res = set(p)
            for q in go(hi):
                if not any(x <= q for x in p):
                    res.add(q | {(at, True)})
            for q in go(lo):
                if not any(x <= q for x in p):
                    res.add(q | {(at, False)})
            if len(res) > 400:
                raise OverflowError
            r = res
        memo[t] = r
        return r
    res = go(t)
    return [p for p in res if not any(q < p for q in res)]


def cube(lits):
    r = TRUE
    for at, val in sorted(lits, key=lambda l: l[0].id):
        c = _intern('phi', (at, TRUE, FALSE))
        r = And(r, c if val else Not(c))
    return r


def some(var, pred):
    """Exists var such that pred."""
    if pred is TRUE or pred is FALSE:
        return pred
    # independent atoms move outside
    for at in atoms_of(pred):
        if var not in at.fv:
            return ite(_intern('phi', (at, TRUE, FALSE)),
                       some(var, restrict(pred, at, True)),
                       some(var, restrict(pred, at, False)))
    # one-point rule
    for at in atoms_of(pred):
        if at.op == 'eq':
            o = _eq_point(at, var)
            if o is not None:
                hi = restrict(pred, at, True)
                if hi is FALSE:
                    continue
                hi = as_cond(subst(hi, {var: o}))
                lo = restrict(pred, at, False)
                if hi is FALSE and lo is not FALSE:
                    if as_cond(subst(lo, {var: o})) is not FALSE:
                        lo = And(lo, Not(_intern('phi', (at, TRUE, FALSE))))
                    if lo is pred:
                        continue
                    return some(var, lo)
                if lo is FALSE:
                    return hi
                if And(as_cond(subst(lo, {var: o})), Not(hi)) is not FALSE:
                    lo = And(lo, Not(_intern('phi', (at, TRUE, FALSE))))
                return Or(hi, some(var, lo))
    # index form -> element form
    e = _index_to_elem(var, [pred])
    if e is not None:
        return some(e[0], e[1][0])
    try:
        ps = primes(pred)
    except OverflowError:
        ps = None
    if ps is not None and len(ps) > 1:
        r = FALSE
        for p in ps:
            r = Or(r, _some1(var, cube(p)))
        return r
    return _some1(var, pred)


def _some1(var, pred):
    if var not in pred.fv:
        return pred
    for at in atoms_of(pred):
        if var not in at.fv:
            return ite(_intern('phi', (at, TRUE, FALSE)),
                       _some1(var, restrict(pred, at, True)),
                       _some1(var, restrict(pred, at, False)))
    # conjunction of atoms where negative-only predicates have no domain
    return _intern('phi', (_intern('some', (lam(var, pred),)), TRUE, FALSE))


def _rb_some(l):
    v = fresh_var()
    return some(v, as_cond(open_lam(l, v)))


REBUILD['some'] = _rb_some


def _index_to_elem(var, terms):
    """If var (an index into src) only occurs as at(src, var) return the same
    terms phrased over the element itself."""
    srcs = set()
    ok = [True]
    seen = set()

    def walk(t):
        if not ok[0] or var not in t.fv or t in seen:
            return
        seen.add(t)
        if t.op == 'idx' and t.args[0] is var and var not in t.args[1].fv:
            srcs.add(t.args[1])
            return
        if t.op == 'item' and t.args[1] is var and var not in t.args[0].fv:
            srcs.add(t.args[0])
            return
        if t is var:
            ok[0] = False
            return
        for a in t.args:
            if isinstance(a, T):
                walk(a)
    for t in terms:
        walk(t)
    if not ok[0] or len(srcs) != 1:
        return None
    src = srcs.pop()
    e = fresh_var('e')
    m = {_intern('item', (src, var)): e}
    out = []
    for t in terms:
        t2 = subst(t, m)
        t2 = _replace_idx(t2, var, src, e)
        if var in t2.fv:
            return None
        out.append(t2)
    return e, out


def _replace_idx(t, var, src, e):
    at = _intern('idx', (var, src))
    return subst(t, {at: In(e, src)})


# ------------------------------------------------------------------- picking
def pick(mode, var, cond, val):
    """val[var] for the first/last var satisfying cond (cond known satisfiable)."""
    if var not in val.fv:
        return val
    if cond is FALSE:
        return ABSENT
    for at in atoms_of(cond):
        if at.op == 'eq':
            o = _eq_point(at, var)
            if o is not None and restrict(cond, at, False) is FALSE:
                return subst(val, {var: o})
    e = _index_to_elem(var, [cond, val])
    if e is not None:
        return pick(mode, e[0], e[1][0], e[1][1])
    # independent decisions move outside
    for at in atoms_of(val) + atoms_of(cond):
        if var not in at.fv:
            return ite(_intern('phi', (at, TRUE, FALSE)),
                       pick(mode, var, restrict(cond, at, True), restrict(val, at, True)),
                       pick(mode, var, restrict(cond, at, False), restrict(val, at, False)))
    return _intern('pick', (mode, lam(var, cond), lam(var, constrain(val, cond))))


def _rb_pick(mode, lc, lv):
    v = fresh_var()
    return pick(mode, v, as_cond(open_lam(lc, v)), open_lam(lv, v))


REBUILD['pick'] = _rb_pick


# ------------------------------------------------------------------ relations
def Eq(a, b):
    return lift(_eq, (a, b))


FRESH_OPS = {'seq', 'str', 'add', 'D', 'list', 'ref', 'func', 'class', 'lamfn', 'bound', 'ext', 'module'}


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'err' or b.op == 'err':      # an exception was raised already
        return FALSE
    if a.op == 'const' and b.op == 'const':
        if a.args[0] in ('int', 'float', 'bool') and b.args[0] in ('int', 'float', 'bool'):
            return const(cval(a) == cval(b))
        return FALSE
    if (a is NONE and b.op in FRESH_OPS) or (b is NONE and a.op in FRESH_OPS):
        return FALSE
    if (a is NONE and b.op == 'sym' and b.args[1] != 'any') or \
            (b is NONE and a.op == 'sym' and a.args[1] != 'any'):
        return FALSE
    if (a is NONE and b.op == 'item' and kind(b).split(':')[0] in NEVER_NONE) or \
            (b is NONE and a.op == 'item' and kind(a).split(':')[0] in NEVER_NONE):
        return FALSE
    if (a is NONE and b.op == 'pick' and _pick_not_none(b)) or \
            (b is NONE and a.op == 'pick' and _pick_not_none(a)):
        return FALSE
    if (a is TIMEKEY and _alias(b)) or (b is TIMEKEY and _alias(a)):
        return FALSE
    if a.op == 'len' and isnum(b) and cval(b) == 0:
        return Not(nonempty(a.args[0]))
    if b.op == 'len' and isnum(a) and cval(a) == 0:
        return Not(nonempty(b.args[0]))
    if a.op in ('class', 'func') and b.op in ('class', 'func'):
        return FALSE
    if a.op == 'seq' and b.op == 'seq':
        if all(p.op == 'lit' for p in a.args + b.args):
            if len(a.args) != len(b.args):
                return FALSE
            return And(*[Eq(x.args[0], y.args[0]) for x, y in zip(a.args, b.args)])
    if a.op == 'str' and b.op == 'const':
        r = _str_eq_const(a, b)
        if r is not None:
            return r
    if b.op == 'str' and a.op == 'const':
        r = _str_eq_const(b, a)
        if r is not None:
            return r
    if a.op == 'str' and b.op == 'str':
        # strip common constant-structured ends
        x, y = list(a.args), list(b.args)
        ch = False
        while x and y and x[0] is y[0]:
            x.pop(0), y.pop(0)
            ch = True
        while x and y and x[-1] is y[-1]:
            x.pop(), y.pop()
            ch = True
        if ch:
            return Eq(mkstr(x), mkstr(y))
    if a.id > b.id:
        a, b = b, a
    return _intern('phi', (_intern('eq', (a, b)), TRUE, FALSE))


def _pick_not_none(p):
    """Picked values are not None: names (keys) or values that never are."""
    v = fresh_var()
    cond, val = as_cond(open_lam(p.args[1], v)), open_lam(p.args[2], v)
    for l in leaves(val):
        if l is v:
            if not any(at.op == 'in' and at.args[0] is v and restrict(cond, at, False) is FALSE
                       for at in atoms_of(cond)):
                return False
        elif Eq(l, NONE) is not FALSE:
            return False
    return True


def _str_eq_const(s, c):
    if c.args[0] != 'str':
        return FALSE
    v = c.args[1]
    ps = list(s.args)
    if isstr(ps[0]):
        if not v.startswith(ps[0].args[1]):
            return FALSE
        v = v[len(ps[0].args[1]):]
        ps = ps[1:]
    if ps and isstr(ps[-1]):
        if not v.endswith(ps[-1].args[1]):
            return FALSE
        v = v[:len(v) - len(ps[-1].args[1])]
        ps = ps[:-1]
    if len(ps) == 1:
        return Eq(ps[0], const(v))
    return None


REBUILD['eq'] = Eq


def Is(a, b):
    if NONE in (a, b) or TRUE in (a, b) or FALSE in (a, b) or a.op == 'phi' or b.op == 'phi':
        return lift(_is, (a, b))
    return _is(a, b)


def _is(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' or b.op == 'const':
        return _eq(a, b)
    if a.op in ('class', 'func', 'ref') and b.op in ('class', 'func', 'ref'):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    if a is not b and (_new_value(a) or _new_value(b)):
        return FALSE
    return _intern('phi', (_intern('is', (a, b)), TRUE, FALSE))


def _new_value(t):
    """the result of array arithmetic is a new object"""
    return t.op in ('add', 'sub', 'mul', 'div') and kind(t) == 'quantity' or \
        t.op == 'wattrs' and _new_value(t.args[0])


REBUILD['is'] = Is


def Lt(a, b):
    return lift(_lt, (a, b))


def _lt(a, b):
    if a is b:
        return FALSE
    if isnum(a) and isnum(b):
        return const(cval(a) < cval(b))
    if isnum(a) and cval(a) == 0 and b.op == 'len':
        return nonempty(b.args[0])
    if a.op == 'len' and isnum(b) and cval(b) == 1:
        return Not(nonempty(a.args[0]))
    if a.op == 'len' and isnum(b) and cval(b) == 0:
        return FALSE
    return _intern('phi', (_intern('lt', (a, b)), TRUE, FALSE))


REBUILD['lt'] = Lt


def nonempty(t):
    """Is the (frozen or symbolic) container non-empty."""
    def f(t):
        if t.op == 'len':
            t = t.args[0]
        if t.op == 'seq':
            r = FALSE
            for p in t.args:
                r = Or(r, piece_nonempty(p))
            return r
        if t.op == 'list':
            return nonempty(t.args[0])
        if t.op in ('D', 'S'):
            v = fresh_var('k')
            return some(v, present(app(t.args[0], v)))
        v = fresh_var('k')
        return some(v, In(v, t))
    return lift(f, (t,))


def piece_nonempty(p):
    if p.op == 'lit':
        return TRUE
    if p.op == 'spread':
        return nonempty(p.args[0])
    if p.op == 'each':
        v = fresh_var('k')
        return some(v, And(as_cond(app(p.args[1], v)), nonempty(app(p.args[2], v))))
    return atom('truthy', p)


# 'time' is the entry of a state which is not a quantity: no quantity has that
# name or that alias (an assumption of the analysis, stated in DESIGN.md).
PROPERTIES = ('input_properties', 'output_properties', 'tendency_properties', 'diagnostic_properties')


def _alias(t):
    return t.op == 'item' and t.args[1].op == 'const' and t.args[1].args[1] == 'alias'


def present(m):
    """m: value-or-ABSENT diagram -> condition 'is present'."""
    def f(t):
        if t is ABSENT or t is FALSE:
            return FALSE
        return TRUE
    return map_leaves(f, m)


def In(x, c):
    return lift(_in, (x, c))


def seq_contains(x, s):
    r = FALSE
    for p in s.args:
        if p.op == 'lit':
            r = Or(r, Eq(x, p.args[0]))
        elif p.op == 'spread':
            r = Or(r, In(x, p.args[0]))
        elif p.op == 'each':
            v = fresh_var('k')
            inner = app(p.args[2], v)
            c = as_cond(app(p.args[1], v))
            r = Or(r, some(v, And(c, lift(lambda s_: seq_contains(x, s_), (inner,)))))
        else:
            r = Or(r, atom('in', x, p))
    return r


def _in(x, c):
    if x.op == 'err' or c.op == 'err':
        return FALSE
    if c.op == 'seq':
        return seq_contains(x, c)
    if c.op == 'list':
        return In(x, c.args[0])
    if c.op in ('D', 'S'):
        return present(app(c.args[0], x))
    if c.op in ('keys', 'tupleof', 'listof', 'setof', 'sortedof', 'reversed'):
        return In(x, c.args[0])
    if c.op == 'const' and c.args[0] == 'str' and x.op == 'const' and x.args[0] == 'str':
        return const(x.args[1] in c.args[1])
    if x is TIMEKEY and c.op == 'attr' and c.args[1] in PROPERTIES:
        return FALSE
    if c.op == 'attr' and c.args[1] == 'attrs' and x is UNITSKEY and kind(c.args[0]) == 'quantity':
        return TRUE
    return _intern('phi', (_intern('in', (x, c)), TRUE, FALSE))


REBUILD['in'] = In
REBUILD['idx'] = lambda i, s: lift(_idx, (i, s))


def _idx(i, s):
    if s.op == 'seq' and all(p.op == 'lit' for p in s.args) and isnum(i):
        return const(0 <= cval(i) < len(s.args))
    return _intern('phi', (_intern('idx', (i, s)), TRUE, FALSE))


# ---------------------------------------------------------------------- truth
CONTAINER_KINDS = ('map', 'seq', 'set', 'list', 'tuple')


def truth(t):
    return lift(_truth, (t,))


def _truth(t):
    if t.op == 'err':
        return FALSE
    if t.op == 'const':
        k, v = t.args
        if k == 'float':
            return const(float(v) != 0)
        if k == 'ellipsis':
            return TRUE
        return const(bool(v))
    if t.op in BOOL_ATOMS:
        return _intern('phi', (t, TRUE, FALSE))
    if t.op in ('seq', 'list', 'D', 'S'):
        return nonempty(t)
    if t.op == 'len':
        return nonempty(t.args[0])
    if t.op in ('func', 'class', 'bound', 'lamfn'):
        return TRUE
    if t.op == 'str' and any(isstr(p) and p.args[1] for p in t.args):
        return TRUE
    k = kind(t)
    if k.split(':')[0] in CONTAINER_KINDS:
        return nonempty(t)
    return _intern('phi', (_intern('truthy', (t,)), TRUE, FALSE))


REBUILD['truthy'] = truth


# ----------------------------------------------------------------------- kinds
_C = 'sympl._core.'
CALL_KINDS = {
    _C + 'get_np_arrays.get_numpy_arrays_with_properties': 'map',
    _C + 'restore_dataarray.restore_data_arrays_with_properties': 'map',
    _C + 'init_np_arrays.initialize_numpy_arrays_with_properties': 'map',
    _C + 'combine_properties.combine_component_properties': 'map:map',
    _C + 'combine_properties.combine_properties': 'map:map',
    _C + 'combine_properties.combine_dims': 'seq',
    _C + 'tracers.get_tracer_input_properties': 'map:map',
    _C + 'tracers.get_tracer_unit_dict': 'map',
    _C + 'tracers.get_tracer_names': 'seq',
    _C + 'tracers.get_quantity_dims': 'seq',
    _C + 'state.add': 'map',
    _C + 'state.multiply': 'map',
    _C + 'restore_dataarray.extract_output_dims_properties': 'map:seq',
    _C + 'util.get_component_aliases': 'map',
    '.get_dims': 'seq',
    '.get_shape': 'seq',
}
CALL_ITEM_KINDS = {
    (_C + 'wildcard.get_wildcard_matches_and_dim_lengths', 0): 'seq',
    (_C + 'wildcard.get_wildcard_matches_and_dim_lengths', 1): 'map',
    (_C + 'wildcard.flatten_wildcard_dims', 0): 'any',
}


NEVER_NONE = ('map', 'seq', 'list', 'num', 'str', 'quantity', 'set')
TIMEKEY = const('time')
UNITSKEY = const('units')
TIMEKEY = const('time')


def kind(t):
    op = t.op
    if op in ('sym', 'mu'):
        return t.args[1]
    if op == 'attr':
        n = t.args[1]
        if n.endswith('_properties'):
            return 'map:map'
        if n == 'attrs':
            return 'map'
        if n in ('dims', 'shape'):
            return 'seq'
        if n in ('variables', 'dimensions', 'data_vars'):
            return 'map'
        return 'any'
    if op == 'item':
        k = kind(t.args[0])
        if ':' in k:
            k = k.split(':', 1)[1]
            return 'any' if k == 'quantity' and t.args[1] is TIMEKEY else k
        c, i = t.args
        if c.op == 'call' and i.op == 'const' and i.args[0] == 'int':
            f = c.args[0]
            if f.op in ('func', 'ext', 'class'):
                return CALL_ITEM_KINDS.get((f.args[0], i.args[1]), 'any')
            if f.op in ('attr', 'item', 'sym', 'var', 'bv', 'bound') and i.args[1] in (0, 1):
                return 'map'            # results of a component call
        return 'any'
    if op == 'call':
        f = t.args[0]
        if f.op == 'attr' and (f.args[1].startswith('quantity_') or (
                f.args[1] in ('copy', 'to_units') and kind(f.args[0]) == 'quantity')):
            return 'quantity'
        return CALL_KINDS.get(callname(t), 'any')
    if op == 'wattrs':
        return kind(t.args[0])
    if op in ('seq',):
        return 'seq'
    if op == 'list':
        return 'list'
    if op == 'D':
        return 'map'
    if op == 'S':
        return 'set'
    if op == 'str' or (op == 'const' and t.args[0] == 'str'):
        return 'str'
    if op in ('add', 'sub', 'mul', 'div') and any(kind(a) == 'quantity' for a in t.args):
        return 'quantity'
    if op == 'poly' and any(isinstance(x, T) and kind(x) == 'quantity' for m in t.args for x in m.args):
        return 'quantity'
    if op in ('add', 'sub', 'mul', 'div', 'len') or (op == 'const' and t.args[0] in ('int', 'float')):
        return 'num'
    return 'any'


def callname(t):
    f = t.args[0]
    if f.op in ('ext', 'func', 'class'):
        return f.args[0]
    if f.op == 'attr':
        return '.' + f.args[1]
    if f.op == 'bound':
        return f.args[1].args[0]
    return None


# -------------------------------------------------------------------- strings
def mkstr(pieces):
    """Concatenation of string pieces."""
    out = []

    def push(p):
        if p.op == 'str':
            for q in p.args:
                push(q)
        elif p.op == 'const' and p.args[0] in ('str', 'int', 'bool', 'none'):
            s = str(p.args[1])
            if s == '':
                return
            if out and isstr(out[-1]):
                out[-1] = const(out[-1].args[1] + s)
            else:
                out.append(const(s))
        else:
            out.append(p)
    if any(p.op == 'phi' for p in pieces):
        return lift(lambda *ps: mkstr(list(ps)), pieces)
    for p in pieces:
        push(p)
    if not out:
        return const('')
    if len(out) == 1 and (isstr(out[0]) or kind(out[0]) == 'str'):
        return out[0]
    return _intern('str', tuple(out))


REBUILD['str'] = lambda *ps: mkstr(list(ps))


# ------------------------------------------------------------------ sequences
def lit(v):
    return _intern('lit', (v,))


def mkseq(pieces):
    out = []
    for p in pieces:
        if p.op == 'spread':
            s = p.args[0]
            if s.op == 'list':
                s = s.args[0]
            if s.op == 'seq':
                out.extend(s.args)
                continue
            out.append(_intern('spread', (s,)))
        elif p.op == 'each' and p.args[1].args[0] is FALSE:
            continue
        else:
            out.append(p)
    return _intern('seq', tuple(out))


def spread(s):
    return _intern('spread', (s,))


def _rb_seq(*ps):
    for i, p in enumerate(ps):
        if p.op == 'spread' and p.args[0].op == 'phi':
            return lift(lambda s: _rb_seq(*(ps[:i] + (_intern('spread', (s,)),) + ps[i + 1:])),
                        (p.args[0],))
        if p.op == 'lit' and p.args[0].op == 'phi' and len(leaves(p.args[0])) <= 4 and False:
            pass
    return mkseq(ps)


REBUILD['seq'] = _rb_seq


def mkeach(src, var, cond, seqval):
    """Concatenation over the elements var of src with cond of seqval(var)."""
    if cond is FALSE:
        return []
    if seqval.op == 'seq' and not seqval.args:
        return []
    # fold emptiness of the produced sequence into the condition
    if seqval.op == 'phi':
        emp = mkseq([])
        c2 = map_leaves(lambda t: FALSE if t is emp else TRUE, seqval)
        if c2 is not TRUE:
            cond = And(cond, c2)
            seqval = constrain(seqval, c2)
    seqval = constrain(seqval, cond)
    # identity: spread the source itself
    e = _index_to_elem(var, [cond, seqval])
    if e is not None:
        var, (cond, seqval) = e
    if (seqval.op == 'seq' and len(seqval.args) == 1 and seqval.args[0].op == 'lit'
            and seqval.args[0].args[0] is var and cond is In(var, src)
            and src.op not in ('D', 'S')):
        return [spread(src)]
    return [_intern('each', (src, lam(var, cond), lam(var, seqval)))]


def _rb_each(src, lc, lv):
    v = fresh_var()
    ps = mkeach(src, v, as_cond(open_lam(lc, v)), open_lam(lv, v))
    if len(ps) == 1:
        return ps[0]
    return spread(mkseq(ps))


REBUILD['each'] = _rb_each


def Len(t):
    def f(t):
        if t.op == 'list':
            t = t.args[0]
        if t.op in ('keys', 'tupleof', 'listof', 'sortedof', 'reversed'):
            return Len(t.args[0])
        if t.op == 'seq':
            n = 0
            rest = []
            for p in t.args:
                if p.op == 'lit':
                    n += 1
                elif p.op == 'spread':
                    rest.append(Len(p.args[0]))
                else:
                    rest.append(_intern('len', (_intern('seq', (p,)),)))
            if not rest:
                return const(n)
            r = rest[0]
            for x in rest[1:]:
                r = arith('add', r, x)
            if n:
                r = arith('add', r, const(n))
            return r
        if isstr(t):
            return const(len(t.args[1]))
        return _intern('len', (t,))
    return lift(f, (t,))


REBUILD['len'] = Len


def item(s, i):
    return lift(_item, (s, i))


def err(name):
    return _intern('err', (name,))


def _item(s, i):
    if s.op == 'list':
        s = s.args[0]
    if s.op == 'D':
        v = app(s.args[0], i)
        ls = leaves(v)
        if ABSENT in ls:
            if len(ls) == 1:
                return err('KeyError')
            if len(ls) == 2:
                return [x for x in ls if x is not ABSENT][0]
            return constrain(v, map_leaves(lambda t: FALSE if t is ABSENT else TRUE, v))
        return v
    if s.op in ('tupleof', 'listof') and kind(s.args[0]).split(':')[0] != 'map':
        return item(s.args[0], i)
    if s.op == 'err':
        return s
    if s.op == 'seq' and i.op == 'const' and i.args[0] == 'int':
        n = i.args[1]
        if n >= 0:
            k = 0
            for p in s.args:
                if p.op != 'lit':
                    if p.op == 'spread' and k == 0 and len(s.args) == 1:
                        return item(p.args[0], i)
                    break
                if k == n:
                    return p.args[0]
                k += 1
        else:
            k = -1
            ps = list(s.args)
            while ps:
                p = ps.pop()
                if p.op != 'lit':
                    if p.op == 'spread':
                        # counted from the end inside the spread tail; exact
                        # whenever the tail is long enough
                        return item(p.args[0], const(n - (k + 1)))
                    break
                if k == n:
                    return p.args[0]
                k -= 1
        return _intern('item', (s, i))
    if s.op == 'zip':
        return mkseq([lit(item(a, i)) for a in s.args])
    if s.op == 'enumerate':
        return mkseq([lit(i), lit(item(s.args[0], i))])
    if i.op == 'slice' and s.op in ('seq',):
        lo, hi, st = i.args
        if all(p.op == 'lit' for p in s.args) and all(x is NONE or (x.op == 'const' and x.args[0] == 'int') for x in i.args):
            return mkseq(list(s.args)[slice(*[None if x is NONE else x.args[1] for x in i.args])])
    if i.op == 'slice' and i.args[0] in (NONE, const(0)) and i.args[1] is NONE and i.args[2] is NONE \
            and kind(s).split(':')[0] in ('seq', 'list', 'tuple', 'str'):
        return s
    return _intern('item', (s, i))


REBUILD['item'] = item



# ------------------------------------------------------------------ arithmetic
def arith(op, a, b):
    return lift(lambda x, y: _arith(op, x, y), (a, b))


def _isstrish(t):
    return kind(t) == 'str'


def _arith(op, a, b):
    if isnum(a) and isnum(b):
        x, y = cval(a), cval(b)
        try:
            if op == 'add':
                return const(x + y)
            if op == 'sub':
                return const(x - y)
            if op == 'mul':
                return const(x * y)
            if op == 'div':
                return const(x / y)
            if op == 'pow':
                return const(x ** y)
            if op == 'floordiv':
                return const(x // y)
            if op == 'mod':
                return const(x % y)
        except Exception:
            pass
    if op == 'add':
        if _isstrish(a) or _isstrish(b):
            return mkstr([a, b])
        if a.op == 'list' or b.op == 'list' or a.op == 'seq' or b.op == 'seq':
            if a.op in ('seq', 'list', 'listof', 'tupleof') or kind(a) in ('seq', 'list', 'tuple'):
                sa = a.args[0] if a.op == 'list' else a
                sb = b.args[0] if b.op == 'list' else b
                s = mkseq([spread(sa), spread(sb)])
                return _intern('list', (s,)) if 'list' in (a.op, b.op) else s
    if op == 'add' and isnum(b) and cval(b) == 0 and a.op == 'len':
        return a
    return _intern(op, (a, b))


for _op in ('add', 'sub', 'mul', 'div', 'pow', 'floordiv', 'mod', 'matmul'):
    REBUILD[_op] = (lambda op: lambda a, b: arith(op, a, b))(_op)


# --------------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '..'
    d = depth - 1
    op = t.op
    if op == 'const':
        return repr(cval(t)) if t.args[0] != 'none' else 'None'
    if op == 'sym':
        return t.args[0]
    if op in ('var', 'bv', 'mu'):
        return op[0] + str(t.args[-1])
    if op == 'phi':
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return show(t.args[0], d)
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return 'not ' + show(t.args[0], d)
        return '{%s ? %s : %s}' % tuple(show(a, d) for a in t.args)
    if op == 'attr':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if op == 'item':
        return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'call':
        f = t.args[0]
        return '%s(%s)' % (show(f, d), ', '.join(show(a, d) for a in t.args[1:]))
    if op in ('ext', 'func', 'class'):
        return str(t.args[0])
    if op == 'in':
        return '(%s in %s)' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'eq':
        return '(%s == %s)' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'lt':
        return '(%s < %s)' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'lam':
        return '\\b%d.%s' % (t.args[1], show(t.args[0], d))
    if op == 'some':
        return 'some(%s)' % show(t.args[0], d)
    if op == 'str':
        return '"' + ''.join(p.args[1] if isstr(p) else '{' + show(p, d) + '}' for p in t.args) + '"'
    if op in ('add', 'sub', 'mul', 'div'):
        return '(%s %s %s)' % (show(t.args[0], d), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[op], show(t.args[1], d))
    return '%s(%s)' % (op, ', '.join(show(a, d) for a in t.args))
