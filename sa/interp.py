"""Abstract interpreter building gated value graphs from the syntax tree.

Both branches of every conditional are analysed and joined with gated nodes;
loop bodies are analysed once on a generic element and summarised; calls into
the analysed packages are resolved (C3 method resolution, properties, super,
closures) and analysed in context.  Nothing is executed.
"""
import ast
import builtins
from .terms import *
from .terms import _intern, _index_to_elem
from .program import Program, ClassInfo, FuncInfo, Module, MUTATORS

UNDEF = _intern('undef', ())
STR_METHODS = {'replace', 'format', 'lower', 'upper', 'strip', 'startswith', 'endswith'}


class Dead(Exception):
    """The analysed path ends here (it raised)."""


class Abort(Exception):
    """Analysis gave up on this entry point."""


class Ev(object):
    __slots__ = ('kind', 'g', 'binders', 'data', 'loc', 'seq', 'assume')

    def __init__(self, kind, g, binders, data, loc, seq, assume):
        self.kind, self.g, self.binders, self.data = kind, g, binders, data
        self.loc, self.seq, self.assume = loc, seq, assume

    def __repr__(self):
        return '%s[%s] %s @%s:%s %s' % (self.kind, show(self.g, 5),
                                       ' '.join('%s=%s' % (k, show(v, 7) if isinstance(v, T) else v)
                                                for k, v in self.data.items()),
                                       self.loc[0], self.loc[1], self.loc[2])


class St(object):
    __slots__ = ('env', 'heap', 'g', 'assume')

    def __init__(self, env, heap, g=TRUE, assume=TRUE):
        self.env, self.heap, self.g, self.assume = env, heap, g, assume

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.g, self.assume)

    def become(self, o):
        self.env, self.heap, self.g, self.assume = o.env, o.heap, o.g, o.assume


class Frame(object):
    def __init__(self, func, module, cls, parent=None):
        self.func, self.module, self.cls, self.parent = func, module, cls, parent
        self.exits = []
        self.soft = 0           # number of non-raise exits seen
        self.loops = []
        self.st = None
        self.globals = set()
        self.nonlocals = set()
        self.yref = None
        self.exc = []


class Loop(object):
    def __init__(self):
        self.breaks, self.continues = [], []


class TryCtx(object):
    def __init__(self, frame, handlers):
        self.frame, self.handlers = frame, handlers   # [(names or None, handler node)]
        self.entries = [[] for _ in handlers]


class Seg(object):
    """One segment of an iteration: either a literal element or a generic one."""

    def __init__(self, elem, var=None, dom=TRUE, src=None, distinct=False, lazy=None):
        self.elem, self.var, self.dom, self.src, self.distinct = elem, var, dom, src, distinct
        self.lazy = lazy        # reads the element in the state of the iteration


BUILTINS = set(dir(builtins))
SAFE_BUILTIN = {'len', 'str', 'repr', 'isinstance', 'hasattr', 'type', 'id', 'print', 'format'}
DICT_ONLY = {'keys', 'items', 'values', 'setdefault', 'popitem', 'iteritems', 'iterkeys', 'itervalues'}


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, prog, opaque=(), open_classes=True):
        self.prog = prog
        self.opaque = set(opaque)
        self.events = []
        self.binders = []
        self.tries = []
        self.frames = []
        self.nref = 0
        self.refinfo = {}
        self.notes = []
        self.quiet = 0
        self.data_memo = {}
        self.stats = {'calls': 0, 'functions': set(), 'loops': 0, 'branches': 0}
        self.callstack = []
        self.loc = ('?', 0, '?')
        self.alias_of = {}
        self.calls_raise = True
        self.bare = set()

    # ------------------------------------------------------------- utilities
    def ev(self, kind, st, **data):
        if self.quiet:
            return None
        e = Ev(kind, st.g, tuple(self.binders), data, self.loc, len(self.events), st.assume)
        self.events.append(e)
        return e

    def note(self, msg):
        if not self.quiet:
            self.notes.append((msg, self.loc))

    def unknown(self, why):
        self.note(why)
        return unk(why)

    def alloc(self, kind, st, content=None, info=None):
        self.nref += 1
        r = _intern('ref', (id(self), self.nref))
        self.refinfo[r] = (kind, info)
        if content is not None:
            st.heap[(r, '#')] = content
        return r

    def refkind(self, t):
        return self.refinfo[t][0] if t.op == 'ref' else None

    def new_dict(self, st, content=ABSENT):
        return self.alloc('dict', st, content)

    def new_list(self, st, seq=None):
        return self.alloc('list', st, seq if seq is not None else mkseq([]))

    def new_set(self, st, content=FALSE):
        return self.alloc('set', st, content)

    # content of containers ------------------------------------------------
    def ckind(self, obj, st):
        """dict / list / set / seq / None for a leaf object."""
        if obj.op == 'ref':
            k = self.refinfo[obj][0]
            return k
        if (obj, '#') in st.heap:
            k = kind(obj).split(':')[0]
            return {'map': 'dict', 'seq': 'list', 'list': 'list', 'set': 'set'}.get(k, 'dict')
        if obj.op == 'D':
            return 'dict'
        if obj.op == 'S':
            return 'set'
        if obj.op == 'list':
            return 'list'
        if obj.op == 'seq':
            return 'seq'
        k = kind(obj).split(':')[0]
        return {'map': 'dict', 'seq': 'seq', 'list': 'list', 'set': 'set', 'tuple': 'seq'}.get(k)

    def map_content(self, obj, st):
        c = st.heap.get((obj, '#'))
        if c is not None:
            return c
        if obj.op == 'D':
            return app(obj.args[0], KEY)
        if obj.op == 'mu':
            return _intern('base', (obj,))
        return ite(In(KEY, obj), item(obj, KEY), ABSENT)

    def set_content(self, obj, st):
        c = st.heap.get((obj, '#'))
        if c is not None:
            return c
        if obj.op == 'S':
            return as_cond(app(obj.args[0], KEY))
        return In(KEY, obj)

    def seq_content(self, obj, st):
        c = st.heap.get((obj, '#'))
        if c is not None:
            return c
        if obj.op == 'list':
            return obj.args[0]
        if obj.op == 'seq':
            return obj
        return mkseq([spread(obj)])

    def unbase(self, t):
        def f(x):
            if x.op == 'base':
                return ite(In(KEY, x.args[0]), item(x.args[0], KEY), ABSENT)
            return x
        return map_leaves(f, t)

    def lookup(self, content, k):
        return subst(self.unbase(content), {KEY: k})

    def pieces_of(self, v, st):
        """A value as a sequence term (frozen)."""
        def f(obj):
            k = self.ckind(obj, st)
            if k == 'list' or k == 'seq':
                return self.freeze_seq(self.seq_content(obj, st), st)
            if k in ('dict', 'set') or obj.op == 'view':
                segs = self.iterate(obj, st)
                out = []
                for s in segs:
                    if s.var is None:
                        out.append(lit(self.freeze(s.elem, st)))
                    else:
                        out.extend(mkeach(s.src, s.var, s.dom, mkseq([lit(self.freeze(s.elem, st))])))
                return mkseq(out)
            if obj.op in ('zip', 'enumerate', 'reversed', 'sortedof', 'range'):
                out = []
                for s in self.iterate(obj, st):
                    if s.var is None:
                        out.append(lit(s.elem))
                    else:
                        out.extend(mkeach(s.src, s.var, s.dom, mkseq([lit(self.freeze(s.elem, st))])))
                return mkseq(out)
            return mkseq([spread(obj)])
        return lift(f, (v,))

    # freezing ---------------------------------------------------------------
    def freeze(self, v, st, memo=None, depth=0):
        """Replace mutable objects by their present contents."""
        if memo is None:
            memo = {}
        if v.op != 'phi':
            return self.freeze1(v, st, memo, depth)
        r = memo.get(v)
        if r is None:
            at = v.args[0]
            r = ite(_intern('phi', (at, TRUE, FALSE)),
                    assume(self.freeze(v.args[1], st, memo, depth), at, TRUE),
                    assume(self.freeze(v.args[2], st, memo, depth), at, FALSE))
            memo[v] = r
        return r

    def freeze1(self, t, st, memo, depth):
        if depth > 12:
            return unk('deep')
        if t.op == 'ref':
            if t in memo:
                return memo[t]
            memo[t] = _intern('cyc', ())
            k, info = self.refinfo[t]
            if k == 'dict':
                r = mkD(self.unbase(self.freeze_leaves(st.heap.get((t, '#'), ABSENT), st, memo, depth)))
            elif k == 'set':
                r = mkS(st.heap.get((t, '#'), FALSE))
            elif k == 'list':
                c = self.freeze_seq(st.heap.get((t, '#'), mkseq([])), st, memo, depth)
                r = map_leaves(lambda s: _intern('list', (s,)), c)
            elif k == 'array':
                c = st.heap.get((t, '#'))
                r = info if c is None or c is ABSENT else _intern(
                    'arr', (info, subst(mkD(self.unbase(self.freeze_leaves(c, st, memo, depth))), {t: info})))
            elif k == 'inst':
                r = _intern('inst', (info.qual,))
            else:
                r = unk('ref ' + str(k))
            memo[t] = r
            return r
        if t.op == 'seq':
            return self.freeze_seq(t, st, memo, depth)
        if t.op == 'view':
            k, o = t.args
            o = self.freeze(o, st, memo, depth)
            if k == 'keys':
                return o if o.op == 'phi' else _intern('keys', (o,))
            return mk(k, o)
        if t.op == 'bound':
            return _intern('bound', (self.freeze(t.args[0], st, memo, depth), t.args[1]))
        if t.op == 'func' and t.args[0] in self.local_funcs:
            return self.freeze_func(t, st)
        c = st.heap.get((t, '#'))
        if c is not None and t.op != 'const':
            k = self.ckind(t, st)
            if t in memo:
                return memo[t]
            memo[t] = _intern('cyc', ())
            if k == 'dict':
                r = mkD(self.unbase(self.freeze_leaves(c, st, memo, depth)))
            elif k == 'set':
                r = mkS(c)
            elif k in ('list', 'seq'):
                r = map_leaves(lambda s: _intern('list', (s,)), self.freeze_seq(c, st, memo, depth))
            else:
                r = t
            memo[t] = r
            return r
        return self.with_attrs(t, st, memo, depth)

    def with_attrs(self, t, st, memo=None, depth=0):
        """An array whose metadata was assigned, with that metadata."""
        if t.op in ('const', 'sym', 'wattrs', 'phi'):
            return t
        a = st.heap.get((t, '.attrs'))
        if a is not None:
            return _intern('wattrs', (t, self.freeze(a, st, memo, depth + 1)))
        at = _intern('attr', (t, 'attrs'))
        if (at, '#') in st.heap:
            c = st.heap[(at, '#')]
            return _intern('wattrs', (t, mkD(self.unbase(self.freeze_leaves(
                c, st, memo if memo is not None else {}, depth)))))
        return t

    def has_attrs(self, t, st):
        return (t, '.attrs') in st.heap or \
            (st.heap and t.op not in ('const', 'sym') and (_intern('attr', (t, 'attrs')), '#') in st.heap)

    local_funcs = {}

    def freeze_func(self, t, st):
        fi = self.local_funcs[t.args[0]]
        a = fi.node.args
        vs = [fresh_var('p') for _ in a.args]
        s = st.copy()
        self.quiet += 1
        n0 = len(self.binders)
        try:
            r = self.call_func(fi, vs, {}, s)
            r = self.freeze(r, s)
            for v in reversed(vs):
                r = lam(v, r)
            return _intern('lamfn', (r,))
        except (Dead, Abort):
            return unk('lambda')
        finally:
            self.quiet -= 1
            del self.binders[n0:]

    def freeze_leaves(self, c, st, memo, depth):
        return map_leaves(lambda x: x if x is ABSENT or x.op in ('base', 'const') else
                          self.freeze(x, st, memo, depth + 1), c)

    def freeze_seq(self, c, st, memo=None, depth=0):
        if memo is None:
            memo = {}

        def f(s):
            if s.op != 'seq':
                return s
            ps = []
            for p in s.args:
                if p.op == 'lit':
                    ps.append(lit(self.freeze(p.args[0], st, memo, depth + 1)))
                elif p.op == 'spread':
                    ps.append(_intern('spread', (self.freeze(p.args[0], st, memo, depth + 1),)))
                else:
                    ps.append(p)
            return rebuild('seq', ps)
        return map_leaves(f, c)

    # state merging --------------------------------------------------------------
    def default_cell(self, key, other):
        obj, what = key
        if what == '#':
            if obj.op == 'ref':
                return other
            k = {'map': 'dict', 'seq': 'list', 'list': 'list', 'set': 'set'}.get(
                kind(obj).split(':')[0])
            if k == 'list':
                return mkseq([spread(obj)])
            if k == 'set':
                return In(KEY, obj)
            if obj.op == 'mu':
                return _intern('base', (obj,))
            return ite(In(KEY, obj), item(obj, KEY), ABSENT)
        if what == 'val':
            return obj
        if obj.op == 'ref' or self.lacks(obj, what[1:]):
            return UNDEF
        return _intern('attr', (obj, what[1:]))

    def lacks(self, ob, name):
        """A bare instance has no private instance attributes yet."""
        if ob not in self.bare or not name.startswith('_') or name.endswith('__'):
            return False
        ci = self.class_of(ob)
        return ci is not None and ci.find(name)[1] is None

    def merge(self, c, s1, s2):
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            env[k] = a if a is b else ite(c, a, b)
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is None:
                a = self.default_cell(k, b)
            if b is None:
                b = self.default_cell(k, a)
            heap[k] = a if a is b else ite(c, a, b)
        a = s1.assume if s1.assume is s2.assume else ite(c, s1.assume, s2.assume)
        return St(env, heap, Or(s1.g, s2.g), a)

    def know(self, st):
        return And(st.g, st.assume)

    def prune(self, v, st):
        if v.op != 'phi':
            return v
        return given(v, self.know(st))

    def split(self, v, st, fn):
        """Apply fn(leaf, state) for each alternative of v; join the results."""
        v = self.prune(v, st)
        if v.op != 'phi':
            return fn(v, st)
        ls = leaves(v)
        if len(ls) > 12:
            return self.unknown('too many alternatives')
        res, dead = [], FALSE
        for leaf in ls:
            c = map_leaves(lambda x: TRUE if x is leaf else FALSE, v)
            s = st.copy()
            s.g = And(st.g, c)
            if s.g is FALSE:
                continue
            try:
                r = fn(leaf, s)
                res.append((c, r, s))
            except Dead:
                dead = Or(dead, c)
        if not res:
            raise Dead()
        c, r, s = res[-1]
        for c2, r2, s2 in reversed(res[:-1]):
            r = ite(c2, r2, r)
            s = self.merge(c2, s2, s)
        s.g = st.g
        if dead is not FALSE:
            s.assume = And(s.assume, Not(dead))
        st.become(s)
        return r

    # ------------------------------------------------------------ entry points
    def run_function(self, fi, args, kwargs=None, st=None):
        st = st or St({}, {})
        r = self.call_func(fi, list(args), dict(kwargs or {}), st)
        return r, st

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """Execute statements; returns the fall-through state or None."""
        for s in stmts:
            st = self.stmt(s, st)
            if st is None:
                return None
        return st

    def stmt(self, node, st):
        fr = self.frames[-1]
        fr.st = st
        old = self.loc
        self.loc = (fr.module.path, node.lineno, fr.func.qual if fr.func else '<module>')
        try:
            m = getattr(self, 's_' + type(node).__name__, None)
            if m is None:
                self.note('unsupported statement ' + type(node).__name__)
                return st
            return m(node, st)
        except Dead:
            return None
        finally:
            self.loc = old

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        self.eval(n.value, st)
        return st

    def s_Pass(self, n, st):
        return st

    s_Import = None

    def s_Import(self, n, st):
        for a in n.names:
            if a.name in self.prog.modules and a.asname:
                st.env[a.asname] = _intern('module', (a.name,))
            else:
                nm = a.name if a.asname else a.name.split('.')[0]
                st.env[a.asname or nm] = _intern('ext', (nm,))
        return st

    def s_ImportFrom(self, n, st):
        m = self.frames[-1].module
        src = self.prog._abs(m, n)
        for a in n.names:
            nm = a.asname or a.name
            if src in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[src], a.name)
                st.env[nm] = self.binding_value(r, st) if r else _intern('ext', (src + '.' + a.name,))
            else:
                st.env[nm] = _intern('ext', ((src or '') + '.' + a.name,))
        return st

    def s_Global(self, n, st):
        self.frames[-1].globals.update(n.names)
        return st

    def s_Nonlocal(self, n, st):
        self.frames[-1].nonlocals.update(n.names)
        return st

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)
        return st

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st)
            v = self.aug(n.op, cur, self.eval(n.value, st), st)
            self.assign(t, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            cur = self.getitem(o, k, st)
            v = self.aug(n.op, cur, self.eval(n.value, st), st)
            self.setitem(o, k, v, st, aug=True)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr(o, self.mangle(t.attr), st)
            v = self.aug(n.op, cur, self.eval(n.value, st), st)
            self.setattr(o, self.mangle(t.attr), v, st)
        return st

    def aug(self, op, cur, val, st):
        def f(c, s):
            k = self.ckind(c, s)
            if isinstance(op, ast.Add) and k == 'list':
                self.mutate_event('iadd', c, s, value=val)
                s.heap[(c, '#')] = self.seq_join(self.seq_content(c, s), self.pieces_of(val, s))
                return c
            if isinstance(op, ast.BitOr) and k in ('dict', 'set'):
                self.call_method(c, 'update', [val], {}, s)
                return c
            r = self.binop(op, c, val, s)
            if not (c.op == 'const' or kind(c) in ('str',) or k in ('seq',) or (isnum(c))):
                self.mutate_event('inplace', c, s, value=r)
            return r
        return self.split(cur, st, f)

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval_index(t.slice, st)
                self.split(o, st, lambda ob, s: self.delitem(ob, k, s))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.mutate_event('delattr', o, st, key=const(t.attr))
        return st

    def delitem(self, o, k, st):
        self.mutate_event('delitem', o, st, key=k)
        ck = self.ckind(o, st)
        if ck == 'dict':
            st.heap[(o, '#')] = ite(Eq(KEY, k), ABSENT, self.map_content(o, st))
        elif ck == 'list' and k.op == 'slice' and all(a is NONE for a in k.args):
            st.heap[(o, '#')] = mkseq([])
        elif ck == 'list':
            st.heap[(o, '#')] = mkseq([spread(mk('delidx', self.freeze(o, st), k))])
        if o.op == 'item':
            self.rehome(o, st)
        return NONE

    def s_Assert(self, n, st):
        c = self.prune(truth_of(self, self.eval(n.test, st), st), st)
        if c is FALSE:
            raise Dead()
        return st

    def s_If(self, n, st):
        self.stats['branches'] += 1
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.block(n.body, st)
        if c is FALSE:
            return self.block(n.orelse, st)
        fr = self.frames[-1]
        return self.branch(c, st, lambda s: self.block(n.body, s), lambda s: self.block(n.orelse, s))

    def branch(self, c, st, f1, f2):
        fr = self.frames[-1]
        s1, s2 = st.copy(), st.copy()
        s1.g, s2.g = And(st.g, c), And(st.g, Not(c))
        n0 = fr.soft
        o1 = f1(s1) if s1.g is not FALSE else None
        n1 = fr.soft
        o2 = f2(s2) if s2.g is not FALSE else None
        n2 = fr.soft
        if o1 is None and o2 is None:
            return None
        if o1 is None:
            if n1 == n0:
                o2.g = self.undo(o2.g, st.g, Not(c))
                o2.assume = And(o2.assume, Not(c))
            return o2
        if o2 is None:
            if n2 == n1:
                o1.g = self.undo(o1.g, st.g, c)
                o1.assume = And(o1.assume, c)
            return o1
        r = self.merge(c, o1, o2)
        return r

    def undo(self, g, entry, c):
        """Guard after a branch whose sibling only raises."""
        if g is And(entry, c):
            return entry
        return g

    def cond(self, node, st):
        v = self.eval(node, st)
        c = truth_of(self, v, st)
        return self.prune(c, st)

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        fr = self.frames[-1]
        fr.exits.append((st.g, v, dict(st.heap), st.assume))
        fr.soft += 1
        return None

    def s_Break(self, n, st):
        fr = self.frames[-1]
        fr.soft += 1
        fr.loops[-1].breaks.append(st)
        return None

    def s_Continue(self, n, st):
        fr = self.frames[-1]
        fr.soft += 1
        fr.loops[-1].continues.append(st)
        return None

    def s_Raise(self, n, st):
        names = ['?']
        if n.exc is None:
            names = self.frames[-1].exc[-1] if self.frames[-1].exc else ['?']
        else:
            names = [self.exc_name(n.exc, st)]
        for nm in names:
            self.raise_(nm, st)
        return None

    def exc_name(self, e, st):
        if isinstance(e, ast.Call):
            e2 = e.func
            if isinstance(e2, ast.Name) or isinstance(e2, ast.Attribute):
                v = self.eval(e2, st)
                if v.op == 'class' or v.op in ('ext', 'builtin'):
                    return v.args[0].split('.')[-1] if v.op != 'class' else v.args[0].split('.')[-1]
            v = self.eval(e, st)
        else:
            v = self.eval(e, st)
        if v.op in ('class', 'ext', 'builtin'):
            return v.args[0].split('.')[-1]
        if v.op == 'exc':
            return v.args[0]
        if v.op == 'ref' and self.refinfo[v][0] == 'inst':
            return self.refinfo[v][1].qual.split('.')[-1]
        return '?'

    def raise_(self, name, st):
        for ctx in reversed(self.tries):
            for i, (names, h) in enumerate(ctx.handlers):
                if names is None or any(self.exc_matches(name, x) for x in names):
                    s = st.copy()
                    if ctx.frame is not self.frames[-1]:
                        s.env = dict(ctx.frame.st.env)
                    ctx.entries[i].append((s, name))
                    return
        self.ev('raise', st, exc=name)

    def exc_matches(self, name, handler):
        handler = handler.split('.')[-1]
        if name == handler:
            return True
        if handler in ('Exception', 'BaseException'):
            return True
        a, b = getattr(builtins, name, None), getattr(builtins, handler, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        for ci in self.prog.classes.values():
            if ci.qual.split('.')[-1] == name:
                for c in ci.mro():
                    if c.qual.split('.')[-1] == handler:
                        return True
                for e in ci.external_bases():
                    if self.exc_matches(e.split('.')[-1], handler) and e != name:
                        return True
        return False

    def s_Try(self, n, st):
        fr = self.frames[-1]
        handlers = []
        for h in n.handlers:
            if h.type is None:
                names = None
            else:
                elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = []
                for e in elts:
                    v = self.eval(e, st)
                    names.append(v.args[0] if v.op in ('ext', 'class', 'builtin') else '?')
            handlers.append((names, h))
        ctx = TryCtx(fr, handlers)
        entry = st.g
        self.tries.append(ctx)
        depth = len(self.tries)
        soft0 = fr.soft
        ex0 = len(fr.exits)
        try:
            out = self.block(n.body, st.copy())
        finally:
            del self.tries[depth - 1:]
        outs = []
        if out is not None and n.orelse:
            out = self.block(n.orelse, out)
        ex1 = len(fr.exits)
        catch, pure = FALSE, FALSE
        for i, (names, h) in enumerate(handlers):
            es = ctx.entries[i]
            if not es:
                continue
            s = es[-1][0]
            for s2, _ in reversed(es[:-1]):
                s = self.merge(s2.g, s2, s)
            g = s.g
            if h.name:
                s.env[h.name] = _intern('exc', (es[0][1],))
            fr.exc.append(sorted({nm for _, nm in es}))
            s0 = fr.soft
            o = self.block(h.body, s)
            fr.exc.pop()
            if o is None and fr.soft == s0:
                pure = Or(pure, g)
            else:
                catch = Or(catch, g)
                if o is not None:
                    outs.append((g, o))
        if catch is not FALSE:
            # a return in the body happens when nothing before it was raised
            for i in range(ex0, ex1):
                fr.exits[i] = (And(fr.exits[i][0], Not(catch)),) + tuple(fr.exits[i][1:])
        if out is not None:
            if catch is not FALSE:
                out.g = And(out.g, Not(catch))
            if pure is not FALSE:
                out.assume = And(out.assume, Not(pure))
            if out.g is FALSE:
                out = None
        res = out
        for g, o in outs:
            res = o if res is None else self.merge(g, o, res)
        if res is not None and out is not None and soft0 == fr.soft and res.g is not entry:
            if Or(res.g, pure) is entry or catch is FALSE:
                res.g = entry
        if n.finalbody:
            if res is not None:
                res = self.block(n.finalbody, res)
            else:
                self.block(n.finalbody, st.copy())
        return res

    def may_raise(self, what, st, exc=None, cond=None):
        """The operation `what` may raise into an enclosing handler."""
        if not self.tries or self.quiet > 50:
            return
        ctx = self.tries[-1]
        for i, (names, h) in enumerate(ctx.handlers):
            for nm in (names or ['Exception']):
                short = nm.split('.')[-1]
                if exc is not None:
                    if not self.exc_matches(exc, short):
                        continue
                    c = cond
                    short = exc
                else:
                    c = mk('raises', const(short), what)
                c = self.prune(c, st)
                if c is FALSE:
                    continue
                s = st.copy()
                s.g = And(st.g, c)
                if ctx.frame is not self.frames[-1]:
                    s.env = dict(ctx.frame.st.env)
                ctx.entries[i].append((s, short))

    def catching(self, *names):
        return any(ns is None or any(self.exc_matches(x, n) for n in ns for x in names)
                   for ctx in self.tries[-1:] for ns, _ in ctx.handlers)

    def s_With(self, n, st):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            self.ev('enter', st, ctx=self.freeze(v, st))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        vals = v
        out = self.block(n.body, st)
        if out is not None:
            self.ev('exit', out, ctx=self.freeze(vals, out))
        return out

    def s_FunctionDef(self, n, st):
        fr = self.frames[-1]
        q = '%s.<%s@%d>' % (fr.func.qual if fr.func else '', n.name, n.lineno)
        fi = FuncInfo(q, n, fr.module, fr.cls, env=fr)
        self.local_funcs[q] = fi
        st.env[n.name] = _intern('func', (q,))
        return st

    def s_ClassDef(self, n, st):
        self.note('local class')
        st.env[n.name] = unk('local class')
        return st

    # ------------------------------------------------------------------ loops
    def s_For(self, n, st):
        it = self.eval(n.iter, st)
        fr = self.frames[-1]

        def body(elem, s):
            self.assign(n.target, elem, s)
            return self.block(n.body, s)
        st2, brk = self.loop(it, body, st, n)
        if st2 is None:
            return None
        if n.orelse:
            if brk is FALSE:
                return self.block(n.orelse, st2)
            return self.branch(Not(brk), st2, lambda s: self.block(n.orelse, s), lambda s: s)
        return st2

    def loop(self, it, body, st, node):
        """Iterate over `it`; returns (state, break condition)."""
        res = [FALSE]

        def f(leaf, s):
            segs = self.iterate(leaf, s)
            brk = FALSE
            cur = s
            for sg in segs:
                if sg.var is None:
                    if brk is FALSE:
                        cur, b = self.run_literal(sg, body, cur)
                    else:
                        bb = [FALSE]

                        def go(s2):
                            o, b2 = self.run_literal(sg, body, s2)
                            bb[0] = b2
                            return o
                        cur = self.branch(Not(brk), cur, go, lambda s2: s2)
                        b = bb[0]
                    if cur is None:
                        raise Dead()
                    brk = Or(brk, b)
                else:
                    if brk is not FALSE:
                        self.note('generic segment after break')
                    cur, b = self.run_generic(sg, body, cur, node)
                    if cur is None:
                        raise Dead()
                    brk = Or(brk, b)
            if cur is not s:
                s.become(cur)
            res[0] = Or(res[0], And(brk))
            return NONE
        self.split(it, st, f)
        return st, res[0]

    def run_literal(self, sg, body, st):
        fr = self.frames[-1]
        lp = Loop()
        fr.loops.append(lp)
        g0 = st.g
        try:
            out = body(sg.elem, st)
        finally:
            fr.loops.pop()
        for c in lp.continues:
            out = c if out is None else self.merge(c.g, c, out)
        brk = FALSE
        for b in lp.breaks:
            brk = Or(brk, given(b.g, g0))
            out = b if out is None else self.merge(b.g, b, out)
        if out is None:
            return None, FALSE
        return out, brk

    def run_generic(self, sg, body, st, node):
        fr = self.frames[-1]
        self.stats['loops'] += 1
        var = sg.var
        carried_env, carried_heap = set(), set()
        dom = sg.dom
        # ---- discover what the body changes
        for attempt in range(5):
            s, mus = self.loop_state(st, carried_env, carried_heap, dom)
            if sg.distinct:
                for key, m in mus.items():
                    if key[0] == 'heap' and key[1][1] == '#' and st.heap.get(key[1]) is not None:
                        self.mu_init[m] = (st.heap[key[1]], var)
            ev0, ex0, soft0 = len(self.events), len(fr.exits), fr.soft
            tries_mark = [[len(e) for e in c.entries] for c in self.tries]
            lp = Loop()
            fr.loops.append(lp)
            self.binders.append(var)
            ref0 = self.nref
            start_env, start_heap = dict(s.env), dict(s.heap)
            try:
                out = body(sg.lazy(s) if sg.lazy else sg.elem, s)
            except Dead:
                out = None
            finally:
                self.binders.pop()
                fr.loops.pop()
            ends = ([out] if out is not None else []) + lp.continues
            ce, ch = set(carried_env), set(carried_heap)
            for o in ends + lp.breaks:
                for k, v in o.env.items():
                    if k in start_env and v is not start_env[k]:
                        ce.add(k)
                for k, v in o.heap.items():
                    if k[0].op == 'ref' and k[0].args[1] > ref0:
                        continue
                    if k in start_heap:
                        if v is not start_heap[k]:
                            ch.add(k)
                    elif self.default_cell(k, None) is not v:
                        if k[0].fv and var in k[0].fv:
                            continue        # per-iteration object
                        ch.add(k)
            if ce == carried_env and ch == carried_heap:
                break
            carried_env, carried_heap = ce, ch
            # roll back
            del self.events[ev0:]
            del fr.exits[ex0:]
            fr.soft = soft0
            for c, marks in zip(self.tries, tries_mark):
                for e, mk_ in zip(c.entries, marks):
                    del e[mk_:]
        return self.summarise(sg, st, s, mus, ends, lp.breaks, ev0, ex0, ref0, start_env,
                              start_heap, tries_mark, soft0)

    def loop_state(self, st, ce, ch, dom):
        s = st.copy()
        s.g = And(st.g, dom)
        mus = {}
        for k in ce:
            m = fresh_mu(k, 'any')
            mus[('env', k)] = m
            s.env[k] = m
        for key in ch:
            obj, what = key
            if what == '#':
                ck = self.ckind(obj, s)
                if ck not in ('set', 'list', 'seq'):
                    k0 = kind(obj)
                    m = fresh_mu('d', k0 if k0.startswith('map') else 'map')
                    s.heap[key] = _intern('base', (m,))
                elif ck == 'set':
                    m = fresh_mu('s', 'set')
                    s.heap[key] = In(KEY, m)
                else:
                    m = fresh_mu('l', 'list')
                    s.heap[key] = mkseq([spread(m)])
            else:
                m = fresh_mu('a', 'any')
                s.heap[key] = m
            mus[('heap', key)] = m
        return s, mus

    def summarise(self, sg, st, s, mus, ends, breaks, ev0, ex0, ref0, start_env, start_heap,
                  tries_mark, soft0):
        fr = self.frames[-1]
        var, dom, src = sg.var, sg.dom, sg.src
        entry_g = st.g
        # merge normal ends
        end = None
        for o in ends:
            end = o if end is None else self.merge(o.g, o, end)
        brk_st = None
        bcond = FALSE
        for b in breaks:
            bcond = Or(bcond, b.g)
            brk_st = b if brk_st is None else self.merge(b.g, b, brk_st)
        # exits (return inside the loop)
        new_exits = fr.exits[ex0:]
        del fr.exits[ex0:]
        ret = FALSE
        for g, v, hp, asm in new_exits:
            ret = Or(ret, g)
        allmu = set(mus.values())

        # updates
        upd = {}
        for key, m in mus.items():
            if end is None:
                continue
            if key[0] == 'env':
                upd[key] = end.env.get(key[1], UNDEF)
            else:
                upd[key] = end.heap.get(key[1])
        # freeze objects created during the iteration
        if end is not None:
            for key in list(upd):
                upd[key] = self.settle(upd[key], end, ref0, key, st)
        # the guard of the normal end relative to the iteration
        inits = {}
        for key, m in mus.items():
            if key[0] == 'env':
                inits[key] = st.env[key[1]]
            else:
                inits[key] = st.heap.get(key[1])
                if inits[key] is None:
                    inits[key] = self.default_cell(key[1], None)
                if inits[key] is None:
                    inits[key] = ABSENT
        # cells that turn out unchanged keep their initial value
        for key, m in list(mus.items()):
            if key not in upd or not self.is_unchanged(key, m, upd[key]):
                continue
            if key[0] == 'heap' and key[1][1] == '#' and inits[key].op == 'phi' and \
                    not m.args[1].startswith(('map', 'set')):
                continue
            for b in breaks:
                bv = b.env.get(key[1], UNDEF) if key[0] == 'env' else b.heap.get(key[1])
                if bv is None or not self.is_unchanged(key, m, bv):
                    break
            else:
                def put(v, key=key, m=m):
                    return self.rebase(key, m, v, inits[key]) if m in v.fv else v
                for k2 in upd:
                    if k2 != key:
                        upd[k2] = put(upd[k2])
                for e in self.events[ev0:]:
                    e.g = as_cond(put(e.g))
                    for k, v in list(e.data.items()):
                        if isinstance(v, T):
                            e.data[k] = put(v)
                new_exits = [(as_cond(put(g)), put(v), hp, asm) for g, v, hp, asm in new_exits]
                ret, bcond = as_cond(put(ret)), as_cond(put(bcond))
        final, pre = {}, {}
        cond_iter = dom
        stop = Or(bcond, ret)
        # distinct-key reads of dict accumulators see the initial content
        for key, m in list(mus.items()):
            if key[0] == 'heap' and key[1][1] == '#' and key in upd and m.args[1].startswith(('map', 'set')):
                self.localise(key, m, upd, inits, var, sg, ev0, new_exits)
        if end is None:
            self.note('loop body never completes')
        for key, m in mus.items():
            final[key] = self.solve(key, m, upd, inits, mus, sg, allmu, end)
        # values before a generic iteration
        rec_terms = {}
        for key, m in mus.items():
            rec_terms[m] = _intern('pre', (self.rec_term(key, m, upd, inits, mus, sg), var))
        # events of an iteration happen only if no earlier one left the loop
        earlier = TRUE
        if stop is not FALSE:
            c = given(self.close(stop, allmu, rec_terms), dom)
            if c.fv & {var}:
                earlier = Not(as_cond(_intern('pre', (some(var, c), var))))
        for e in self.events[ev0:]:
            if e.g.fv & allmu:
                e.g = as_cond(subst(e.g, {m: rec_terms[m] for m in e.g.fv & allmu}))
            if e.kind in ('raise', 'call', 'mutate'):
                e.g = And(earlier, e.g)
            if e.assume.fv & (allmu | {var}):
                e.assume = TRUE
            for k, v in list(e.data.items()):
                if isinstance(v, T) and v.fv & allmu:
                    e.data[k] = subst(v, {m: rec_terms[m] for m in v.fv & allmu})
        for c, marks in zip(self.tries, tries_mark):
            for es, mk_ in zip(c.entries, marks):
                for i in range(mk_, len(es)):
                    s2, nm = es[i]
                    g = subst(s2.g, {m: rec_terms[m] for m in s2.g.fv & allmu})
                    s3 = st.copy()
                    s3.g = some(var, as_cond(g))
                    if c.frame is not fr:
                        s3.env = s2.env
                    es[i] = (s3, nm)
        out = st.copy()
        # names assigned only inside
        if end is not None:
            for k, v in end.env.items():
                if k not in start_env:
                    v2 = self.settle(v, end, ref0, None, st)
                    v2 = subst(v2, {m: rec_terms[m] for m in v2.fv & allmu})
                    out.env[k] = pick('last', var, And(dom), v2) if v2.op != 'ref' else unk('loop local')
        for key in mus:
            if key[0] == 'env':
                out.env[key[1]] = final[key]
            else:
                out.heap[key[1]] = final[key]
        # breaks
        if bcond is not FALSE:
            b_any = some(var, self.close(bcond, allmu, rec_terms))
            for key, m in mus.items():
                unchanged = key not in upd or self.is_unchanged(key, m, upd[key])
                bv = brk_st.env.get(key[1], UNDEF) if key[0] == 'env' else brk_st.heap.get(key[1])
                bv = self.settle(bv, brk_st, ref0, key, st)
                if unchanged:
                    bv = self.rebase(key, m, bv, inits[key])
                    if bv.fv & allmu:
                        val = unk('break value')
                    else:
                        val = pick('first', var, self.close(bcond, allmu, rec_terms), bv)
                    val = ite(b_any, val, inits[key])
                else:
                    # prefix of the domain up to the break
                    u = ite(given(bcond, dom), bv, upd[key])
                    val = self.until(key, m, upd, bv, bcond, inits, mus, sg)
                if key[0] == 'env':
                    out.env[key[1]] = val
                else:
                    out.heap[key[1]] = val
            for k, v in brk_st.env.items():
                if k not in start_env and k not in out.env or (k not in start_env):
                    v2 = self.settle(v, brk_st, ref0, None, st)
                    if v2.fv & allmu or v2.op == 'ref':
                        out.env[k] = unk('break local')
                    else:
                        pb = pick('first', var, bcond, v2)
                        out.env[k] = ite(b_any, pb, out.env.get(k, UNDEF))
            brk = given(b_any, entry_g)
        else:
            brk = FALSE
        # returns
        if new_exits:
            done = []
            for g, v, hp, asm in new_exits:
                g2 = self.close(g, allmu, rec_terms)
                v2 = self.freeze_iter(v, hp, ref0)
                v2 = subst(v2, {m: rec_terms[m] for m in v2.fv & allmu})
                hp2 = dict(st.heap)
                for k in hp:
                    if k[0].op == 'ref' and k[0].args[1] > ref0:
                        if var not in hp[k].fv and not (hp[k].fv & allmu):
                            hp2[k] = hp[k]
                done.append((g2, v2, hp2))
            # the first iteration that returns decides, whichever return statement it takes
            rall = self.close(ret, allmu, rec_terms)
            while done:
                g2, v2, hp2 = done[0]
                same = [d for d in done[1:] if d[2] == hp2]
                rest = [d for d in done[1:] if d[2] != hp2]
                mine = g2
                for d in same:
                    mine = Or(mine, d[0])
                val = same[-1][1] if same else v2
                if same:
                    for d in reversed(same[:-1]):
                        val = ite(d[0], d[1], val)
                    val = ite(g2, v2, val)
                cond = some(var, rall)
                if mine is not rall:
                    cond = And(cond, as_cond(pick('first', var, rall, mine)))
                fr.exits.append((cond, pick('first', var, rall, val), hp2, st.assume))
                done = rest
            rc = some(var, self.close(ret, allmu, rec_terms))
            out.g = And(entry_g, Not(rc))
            if out.g is FALSE:
                return None, brk
        else:
            out.g = entry_g
        # raising iterations are assumed away afterwards
        rz = FALSE
        for e in self.events[ev0:]:
            if e.kind == 'raise' and e.binders and e.binders[-1] is var:
                rz = Or(rz, e.g)
        if rz is not FALSE and not (rz.fv & allmu):
            a = Not(some(var, given(rz, entry_g)))
            out.assume = And(out.assume, a)
        return out, brk

    def close(self, c, allmu, rec_terms):
        if c.fv & allmu:
            c = as_cond(subst(c, {m: rec_terms[m] for m in c.fv & allmu}))
        return c

    def freeze_iter(self, v, heap, ref0):
        s = St({}, heap)
        return self.freeze(v, s)

    def settle(self, v, end, ref0, key, st):
        """Replace objects allocated in the iteration by their contents."""
        if v is None:
            return UNDEF
        refs = [0]

        def has_new(t, seen):
            if t in seen:
                return False
            seen.add(t)
            if t.op == 'ref':
                return t.args[1] > ref0
            if t.op == 'item' and t.fv and (t, '#') in end.heap and (t, '#') not in st.heap:
                return True
            if t.op not in ('const', 'sym') and self.has_attrs(t, end) and not self.has_attrs(t, st):
                return True
            return any(has_new(a, seen) for a in t.args if isinstance(a, T))
        if not has_new(v, set()):
            return v
        memo = {}

        def f(t):
            if t.op == 'ref' and t.args[1] > ref0:
                if self.refinfo[t][0] == 'inst':
                    return t
                return self.freeze(t, end)
            if t.op == 'item' and t.fv and (t, '#') in end.heap and (t, '#') not in st.heap:
                return self.freeze(t, end)
            if t.op == 'seq':
                ps = []
                for p in t.args:
                    if p.op in ('lit', 'spread'):
                        ps.append(_intern(p.op, (map_leaves(f, p.args[0]),)))
                    else:
                        ps.append(p)
                return rebuild('seq', ps)
            if t.op != 'ref' and self.has_attrs(t, end) and not self.has_attrs(t, st):
                return self.with_attrs(t, end)
            return t
        return map_leaves(f, v)

    def is_unchanged(self, key, m, u):
        if key[0] == 'env' or key[1][1] != '#':
            return u is m
        if m.args[1].startswith('map'):
            return u is _intern('base', (m,))
        if m.args[1] == 'set':
            return u is In(KEY, m)
        return u is mkseq([spread(m)])

    def rebase(self, key, m, v, init):
        """Express v (over mu m) with m replaced by its initial value."""
        if key[0] == 'env' or key[1][1] != '#':
            return subst(v, {m: init})
        if m.args[1].startswith('map'):
            return self.sub_map(v, m, init)
        if m.args[1] == 'set':
            return self.sub_set(v, m, init)
        return self.sub_list(v, m, init)

    def sub_map(self, v, m, init):
        D = mkD(self.unbase(init)) if init.op != 'base' else init.args[0]
        b = _intern('base', (m,))
        if b in leaves(v):
            v = map_leaves(lambda t: init if t is b else t, v)
        v = subst(v, {m: D})
        return v

    def sub_set(self, v, m, init):
        return as_cond(subst(v, {m: mkS(init)}))

    def sub_list(self, v, m, init):
        return lift(lambda s0: subst(v, {m: s0}), (init,))

    def localise(self, key, m, upd, inits, var, sg, ev0, new_exits):
        """Reads at the generic key of a cell written only at that key see the
        initial content (distinct domains)."""
        if not sg.distinct:
            return
        u = upd[key]
        ismap = m.args[1].startswith('map')
        if ismap:
            w = map_leaves(lambda t: FALSE if t is _intern('base', (m,)) else TRUE, u)
            eqc = Eq(KEY, var)
            if And(w, Not(eqc)) is not FALSE:
                return
            D = mkD(self.unbase(inits[key]))
            mm = {_intern('item', (m, var)): item(D, var), _intern('in', (var, m)): In(var, D)}
        else:
            return
        # reads at a constant key, on the paths where the generic key is that constant
        seen, stack = set(), [u]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            stack.extend(a for a in x.args if isinstance(a, T))
            c = x.args[1] if x.op == 'item' and x.args[0] is m else \
                x.args[0] if x.op == 'in' and x.args[1] is m else None
            if c is not None and c.op == 'const' and not contains(ite(Eq(var, c), UNDEF, u), x):
                mm[x] = item(D, c) if x.op == 'item' else In(c, D)
        # the substitution must remove every read of m
        base = _intern('base', (m,))
        ph = fresh_var('basehold')
        u2 = map_leaves(lambda t: ph if t is base else t, u)
        u2 = subst(u2, mm)
        if m in u2.fv:
            pass
        upd[key] = map_leaves(lambda t: base if t is ph else t, u2)
        for k2 in list(upd):
            if k2 != key and m in upd[k2].fv:
                upd[k2] = subst(upd[k2], mm)
        for e in self.events[ev0:]:
            if m in e.g.fv:
                e.g = as_cond(subst(e.g, mm))
            for k, v in list(e.data.items()):
                if isinstance(v, T) and m in v.fv:
                    e.data[k] = subst(v, mm)
        for i, (g, v, hp, asm) in enumerate(new_exits):
            if m in g.fv or m in v.fv:
                new_exits[i] = (as_cond(subst(g, mm)), subst(v, mm), hp, asm)

    def solve(self, key, m, upd, inits, mus, sg, allmu, end):
        """Closed form of a carried cell after the loop."""
        init = inits[key]
        if key not in upd or self.is_unchanged(key, m, upd[key]):
            return init
        u = upd[key]
        var, dom = sg.var, sg.dom
        if key[0] == 'heap' and key[1][1] == '#':
            mk_ = m.args[1]
            if mk_.startswith('map'):
                base = _intern('base', (m,))
                w = map_leaves(lambda t: FALSE if t is base else TRUE, u)
                v = map_leaves(lambda t: ABSENT if t is base else t, u)
                w2 = And(dom, w)
                v = constrain(v, w2)
                if not ((w2.fv | v.fv) & allmu):
                    return ite(some(var, w2), pick('last', var, w2, v), init)
                R = self.rec_term(key, m, upd, inits, mus, sg)
                if not (w2.fv & allmu) and ABSENT not in leaves(v):
                    pres = Or(some(var, w2), present(init))
                    return ite(pres, item(R, KEY), ABSENT)
                return ite(In(KEY, R), item(R, KEY), ABSENT)
            if mk_ == 'set':
                w = restrict_in(u, m)
                if w is not None and not (w.fv & allmu):
                    return Or(init, some(var, And(dom, w)))
                R = self.rec_term(key, m, upd, inits, mus, sg)
                return In(KEY, R)
            # list
            rest = self.list_tail(u, m)
            if rest is not None and not (rest.fv & allmu):
                pcs = mkeach(sg.src, var, dom, rest)
                return lift(lambda s0: mkseq(list(s0.args) + pcs), (init,))
            R = self.rec_term(key, m, upd, inits, mus, sg)
            return mkseq([spread(R)])
        w = map_leaves(lambda t: FALSE if t is m else TRUE, u)
        v = map_leaves(lambda t: UNDEF if t is m else t, u)
        w2 = And(dom, w)
        v = constrain(v, w2)
        if not ((w2.fv | v.fv) & allmu):
            return ite(some(var, w2), pick('last', var, w2, v), init)
        # running sums and products
        acc = self.accumulate(u, m, allmu)
        if acc is not None:
            op, term_ = acc
            pcs = mkeach(sg.src, var, dom, mkseq([lit(term_)]))
            return _intern('sum', (op, mkseq(pcs), init)) if init.op != 'phi' else \
                lift(lambda i0: _intern('sum', (op, mkseq(pcs), i0)), (init,))
        if init.op == 'ref':
            return unk('rebound object in loop')
        return self.rec_term(key, m, upd, inits, mus, sg)

    def accumulate(self, u, m, allmu):
        """u == m (+|*) f with conditional identity."""
        ops = {}
        for l in leaves(u):
            if l is m:
                continue
            if l.op in ('add', 'mul'):
                a, b = l.args
                if a is m and not (b.fv & allmu):
                    ops.setdefault(l.op, {})[l] = b
                    continue
                if b is m and not (a.fv & allmu):
                    ops.setdefault(l.op, {})[l] = a
                    continue
            return None
        if len(ops) != 1:
            return None
        op, tab = list(ops.items())[0]
        ident = const(0) if op == 'add' else const(1)
        t = map_leaves(lambda x: ident if x is m else tab[x], u)
        if t.fv & allmu:
            return None
        return op, t

    def list_tail(self, u, m):
        ok = [True]

        def f(s):
            if s.op != 'seq' or not s.args or s.args[0] is not spread(m):
                ok[0] = False
                return s
            return mkseq(s.args[1:])
        r = map_leaves(f, u)
        return r if ok[0] else None

    def rec_term(self, key, m, upd, inits, mus, sg):
        """Opaque canonical summary of a recurrence."""
        # dependency closure
        inv = {mm: k for k, mm in mus.items()}
        order = [key]
        seen = {key}
        i = 0
        while i < len(order):
            k = order[i]
            i += 1
            u = upd.get(k)
            if u is None:
                continue
            deps = [inv[x] for x in u.fv if x in inv and inv[x] not in seen]
            deps.sort(key=lambda kk: (kk[0], mus[kk].args[1], self.anon(upd.get(kk), mus)))
            for d in deps:
                seen.add(d)
                order.append(d)
        var = sg.var
        ups = []
        for k in order:
            u = upd.get(k, UNDEF)
            if k[0] == 'heap' and k[1][1] == '#' and mus[k].args[1].startswith('map'):
                u = mkD(self.unbase(u))
            elif k[0] == 'heap' and k[1][1] == '#' and mus[k].args[1] == 'set':
                u = mkS(u)
            ups.append(lit(u))
        ini = []
        for k in order:
            v = inits[k]
            if k[0] == 'heap' and k[1][1] == '#' and mus[k].args[1].startswith('map'):
                v = mkD(self.unbase(v))
            elif k[0] == 'heap' and k[1][1] == '#' and mus[k].args[1] == 'set':
                v = mkS(v)
            ini.append(lit(v))
        dom, body = sg.dom, _intern('seq', tuple(ups))
        d, known = dom, {}
        while d.op == 'phi' and (d.args[1] is FALSE or d.args[2] is FALSE):
            known[d.args[0]] = TRUE if d.args[2] is FALSE else FALSE
            d = d.args[1] if d.args[2] is FALSE else d.args[2]
        if known and d is TRUE:             # the body only runs within the domain
            body = subst(body, known)
        e = _index_to_elem(var, [dom, body])
        if e is not None:
            var, (dom, body) = e
        ld, lb = lam(var, dom), body
        for k in reversed(order):
            lb = lam(mus[k], lb)
        lb = lam(var, lb)
        kd = m.args[1]
        return _intern('rec', (sg.src if sg.src is not None else NONE, ld, lb,
                               _intern('seq', tuple(ini)), kd))

    def anon(self, u, mus):
        if u is None:
            return ''
        v = sym('mu?', 'any')
        return show(subst(u, {m: v for m in mus.values()}), 12)

    def until(self, key, m, upd, bv, bcond, inits, mus, sg):
        if m.args[1] == 'list' and key[0] == 'heap':
            return mkseq([spread(unk('loop with break'))])
        return unk('loop with break')

    def s_While(self, n, st):
        # draining loops: while <x non-empty>: x.pop*()
        d = self.drain(n, st)
        if d is not None:
            return d
        fr = self.frames[-1]
        g0 = st.g
        c0 = self.cond(n.test, st.copy())
        if c0 is FALSE:
            return self.block(n.orelse, st) if n.orelse else st
        var = fresh_var('w')
        ce, ch = set(), set()
        for attempt in range(5):
            s, mus = self.loop_state(st, ce, ch, TRUE)
            ev0, ex0, soft0 = len(self.events), len(fr.exits), fr.soft
            lp = Loop()
            fr.loops.append(lp)
            self.binders.append(var)
            ref0 = self.nref
            start_env, start_heap = dict(s.env), dict(s.heap)
            try:
                c = self.cond(n.test, s)
                s.g = And(s.g, c)
                out = self.block(n.body, s)
            except Dead:
                out = None
            finally:
                self.binders.pop()
                fr.loops.pop()
            ends = ([out] if out is not None else []) + lp.continues
            ce2, ch2 = set(ce), set(ch)
            for o in ends + lp.breaks:
                for k, v in o.env.items():
                    if k in start_env and v is not start_env[k]:
                        ce2.add(k)
                for k, v in o.heap.items():
                    if k[0].op == 'ref' and k[0].args[1] > ref0:
                        continue
                    if k in start_heap:
                        if v is not start_heap[k]:
                            ch2.add(k)
                    elif self.default_cell(k, None) is not v:
                        ch2.add(k)
            if ce2 == ce and ch2 == ch:
                break
            ce, ch = ce2, ch2
            del self.events[ev0:]
            del fr.exits[ex0:]
            fr.soft = soft0
        # counting loops over the positions of a sequence
        if not lp.breaks and len(fr.exits) == ex0 and ends and c.op == 'phi':
            r = self.counting(n, st, c, mus, ends, ev0, ex0, soft0)
            if r is not None:
                return r
        end = None
        for o in ends:
            end = o if end is None else self.merge(o.g, o, end)
        allmu = set(mus.values())
        upd, inits = {}, {}
        for key, m in mus.items():
            if key[0] == 'env':
                inits[key] = st.env[key[1]]
            else:
                v = st.heap.get(key[1])
                inits[key] = v if v is not None else self.default_cell(key[1], None)
            if end is not None:
                u = end.env.get(key[1], UNDEF) if key[0] == 'env' else end.heap.get(key[1])
                upd[key] = self.settle(u, end, ref0, key, st)
        sg = Seg(None, var, TRUE, None)
        out = st.copy()
        recs = {}
        order = sorted(mus, key=lambda k: (k[0], mus[k].args[1], self.anon(upd.get(k), mus)))
        cb = c
        if lp.breaks:
            bc = FALSE
            for b in lp.breaks:
                bc = Or(bc, b.g)
            cb = And(cb, Not(given(bc, And(g0, c))))
            self.note('while with break')
        for k in reversed(order):
            cb = lam(mus[k], cb)
        for key, m in mus.items():
            R = self.rec_term(key, m, upd, inits, mus, sg)
            R = _intern('while', (cb, R, m.args[1]))
            if lp.breaks:
                R = unk('while with break')
            recs[m] = _intern('pre', (R, var))
            if key[0] == 'env':
                out.env[key[1]] = R if inits[key].op != 'ref' else unk('rebound')
            elif key[1][1] == '#':
                if m.args[1].startswith('map'):
                    out.heap[key[1]] = ite(In(KEY, R), item(R, KEY), ABSENT)
                elif m.args[1] == 'set':
                    out.heap[key[1]] = In(KEY, R)
                else:
                    out.heap[key[1]] = mkseq([spread(R)])
            else:
                out.heap[key[1]] = R
        for e in self.events[ev0:]:
            if e.g.fv & allmu:
                e.g = as_cond(subst(e.g, {m: recs[m] for m in e.g.fv & allmu}))
            e.assume = TRUE
            for k, v in list(e.data.items()):
                if isinstance(v, T) and v.fv & allmu:
                    e.data[k] = subst(v, {m: recs[m] for m in v.fv & allmu})
        new_exits = fr.exits[ex0:]
        del fr.exits[ex0:]
        out.g = g0
        if new_exits:
            for g, v, hp, asm in new_exits:
                g2 = self.close(g, allmu, recs)
                fr.exits.append((some(var, g2), unk('return from while'), dict(st.heap), st.assume))
            out.g = And(g0, Not(some(var, self.close(new_exits[0][0], allmu, recs))))
        if isconst(c, True) and not lp.breaks:
            return None
        return out

    def counting(self, n, st, c, mus, ends, ev0, ex0, soft0):
        """while i < len(s): ...; i += 1   ->   for i in range(len(s))"""
        if not (c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op == 'lt'):
            return None
        m, bound = c.args[0].args
        inv = {mm: k for k, mm in mus.items()}
        if m not in inv or inv[m][0] != 'env' or bound.fv & set(mus.values()):
            return None
        name = inv[m][1]
        if not isconst(st.env[name], 0):
            return None
        for o in ends:
            if o.env.get(name) is not arith('add', m, const(1)):
                return None
        # the counter must be stepped by the last statement
        last = n.body[-1]
        if not (isinstance(last, (ast.AugAssign, ast.Assign))):
            return None
        del self.events[ev0:]
        fr = self.frames[-1]
        del fr.exits[ex0:]
        fr.soft = soft0
        rng = mk('range', const(0), bound, const(1))

        def body(elem, s):
            s.env[name] = elem
            o = self.block(n.body[:-1], s)
            return o
        st2, brk = self.loop(rng, body, st, n)
        if st2 is not None:
            st2.env[name] = bound
        return st2

    def drain(self, n, st):
        if len(n.body) != 1 or n.orelse:
            return None
        b = n.body[0]
        call = None
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call):
            call = b.value
        if call is None or not isinstance(call.func, ast.Attribute) or \
                call.func.attr not in ('pop', 'popitem', 'popleft'):
            return None
        tgt = call.func.value
        o = self.eval(tgt, st)
        if o.op == 'phi':
            return None
        c = self.cond(n.test, st)
        ck = self.ckind(o, st)
        if ck == 'dict':
            v = fresh_var('k')
            full = some(v, present(self.lookup(self.map_content(o, st), v)))
        elif ck == 'set':
            v = fresh_var('k')
            full = some(v, as_cond(subst(self.set_content(o, st), {KEY: v})))
        elif ck in ('list', 'seq'):
            full = nonempty(self.seq_content(o, st))
        else:
            return None
        if c is not self.prune(full, st):
            return None
        self.mutate_event('clear', o, st)
        st.heap[(o, '#')] = {'dict': ABSENT, 'set': FALSE}.get(ck, mkseq([]))
        return st

    # -------------------------------------------------------------- iteration
    def iterate(self, obj, st):
        """Segments of an iteration over a leaf object."""
        if obj.op == 'view':
            k, o = obj.args
            if o.op == 'phi':
                return self.iterate_generic(obj, st)
            segs = self.iterate(o, st)
            out = []
            for s in segs:
                def read(at, key=s.elem):
                    v = self.getitem(o, key, at)
                    return mkseq([lit(key), lit(v)]) if k == 'items' else v
                if k == 'keys':
                    out.append(Seg(s.elem, s.var, s.dom, s.src, s.distinct))
                elif s.var is None:
                    out.append(Seg(read(st)))
                else:
                    # objects held by a generic entry are met inside the iteration only
                    at = st.copy()
                    e = read(at)
                    lazy = None
                    if at.heap != st.heap:
                        e, lazy = self.freeze(e, at), read
                    out.append(Seg(e, s.var, s.dom, s.src, s.distinct, lazy))
            return out
        ck = self.ckind(obj, st)
        if ck == 'dict':
            return self.iter_keys(self.map_content(obj, st), obj, st)
        if ck == 'set':
            return self.iter_keys(map_leaves(lambda t: ABSENT if t is FALSE else t,
                                             self.set_content(obj, st)), obj, st)
        if ck in ('list', 'seq'):
            c = self.seq_content(obj, st)
            if c.op == 'phi':
                return self.iter_phi(c, st)
            return self.iter_seq(c, st)
        if obj.op == 'zip':
            return self.iter_zip(obj, st)
        if obj.op == 'enumerate':
            x, start = obj.args
            segs = self.try_literal(x, st)
            if segs is not None:
                return [Seg(mkseq([lit(arith('add', const(i), start)), lit(s.elem)]))
                        for i, s in enumerate(segs)]
            src = self.as_source(x, st)
            i = fresh_var('i')
            return [Seg(mkseq([lit(arith('add', i, start) if not isconst(start, 0) else i),
                               lit(item(src, i))]), i, rebuild('idx', (i, src)), src)]
        if obj.op == 'range':
            lo, hi, step = obj.args
            if all(isnum(x) for x in obj.args):
                r = range(cval(lo), cval(hi), cval(step))
                if len(r) <= 16:
                    return [Seg(const(i)) for i in r]
            i = fresh_var('i')
            if isconst(lo, 0) and isconst(step, 1) and hi.op == 'len':
                return [Seg(i, i, rebuild('idx', (i, hi.args[0])), hi.args[0], True)]
            return [Seg(i, i, And(Not(Lt(i, lo)), Lt(i, hi)), obj, True)]
        if obj.op == 'reversed':
            segs = self.try_literal(obj.args[0], st)
            if segs is not None:
                return segs[::-1]
            inner = self.iterate(obj.args[0], st)
            if len(inner) == 1 and inner[0].var is not None:
                s = inner[0]
                return [Seg(s.elem, s.var, s.dom, _intern('reversed', (s.src,)), s.distinct)]
            return inner[::-1]
        if obj.op == 'sortedof':
            inner = self.iterate(obj.args[0], st)
            if len(inner) == 1 and inner[0].var is not None:
                s = inner[0]
                return [Seg(s.elem, s.var, s.dom, _intern('sortedof', (s.src,) + obj.args[1:]), s.distinct)]
            if all(s.var is None and isstr(s.elem) for s in inner) and len(obj.args) == 1:
                return sorted(inner, key=lambda s: s.elem.args[1])
            return inner
        if obj.op in ('keys', 'tupleof', 'listof', 'setof'):
            return self.iterate(obj.args[0], st)
        if obj.op == 'items':
            v = fresh_var('k')
            o = obj.args[0]
            return [Seg(mkseq([lit(v), lit(item(o, v))]), v, In(v, o), o, True)]
        if obj.op == 'values':
            v = fresh_var('k')
            o = obj.args[0]
            return [Seg(item(o, v), v, In(v, o), o, True)]
        return self.iterate_generic(obj, st)

    def iterate_generic(self, obj, st):
        i = fresh_var('i')
        o = self.freeze(obj, st)
        return [Seg(item(o, i), i, rebuild('idx', (i, o)), o)]

    def iter_phi(self, c, st):
        """Iteration over alternatives of a sequence content."""
        out = []
        for leaf in leaves(c):
            cc = map_leaves(lambda x: TRUE if x is leaf else FALSE, c)
            for s in self.iter_seq(leaf, st):
                if s.var is None:
                    v = fresh_var('u')
                    # literal element present only under cc
                    out.append(Seg(s.elem, v, And(cc, Eq(v, const(0))), NONE, True))
                else:
                    out.append(Seg(s.elem, s.var, And(cc, s.dom), s.src, s.distinct))
        return out

    def iter_keys(self, content, obj, st):
        keys = finite_keys(content)
        if keys is not None:
            return [Seg(k) for k in keys]
        v = fresh_var('k')
        dom = present(self.lookup(content, v))
        src = self.freeze(obj, st)
        return [Seg(v, v, dom, src, True)]

    def iter_seq(self, s, st):
        if s.op != 'seq':
            return self.iterate_generic(s, st)
        out = []
        for p in s.args:
            if p.op == 'lit':
                out.append(Seg(p.args[0]))
            elif p.op == 'spread':
                x = p.args[0]
                ck = self.ckind(x, st) if x.op != 'phi' else None
                if ck in ('dict', 'set') or x.op in ('keys', 'items', 'values', 'zip', 'enumerate',
                                                     'reversed', 'sortedof', 'range', 'tupleof', 'listof'):
                    out.extend(self.iterate(x, st))
                else:
                    i = fresh_var('i')
                    out.append(Seg(item(x, i), i, rebuild('idx', (i, x)), x))
            elif p.op == 'each':
                src, lc, lv = p.args
                v = fresh_var('k')
                c, inner = as_cond(app(lc, v)), app(lv, v)
                for leaf in leaves(inner):
                    cc = map_leaves(lambda x: TRUE if x is leaf else FALSE, inner)
                    if leaf.op == 'seq' and all(q.op == 'lit' for q in leaf.args):
                        for q in leaf.args:
                            if len(leaf.args) == 1:
                                out.append(Seg(q.args[0], v, And(c, cc), src,
                                               q.args[0] is v and kind(src).split(':')[0] in ('map', 'set')))
                            else:
                                v2 = fresh_var('k')
                                m = {v: v2}
                                out.append(Seg(subst(q.args[0], m), v2, as_cond(subst(And(c, cc), m)), src))
                    else:
                        i = fresh_var('i')
                        o = _intern('seq', (p,))
                        return [Seg(item(o, i), i, rebuild('idx', (i, o)), o)]
        return out

    def try_literal(self, x, st):
        if x.op == 'phi':
            return None
        segs = self.iterate(x, st)
        if all(s.var is None for s in segs):
            return segs
        return None

    def as_source(self, x, st):
        x = self.freeze(x, st)
        if x.op == 'list':
            x = x.args[0]
        if x.op == 'seq' and len(x.args) == 1 and x.args[0].op == 'spread':
            x = x.args[0].args[0]
        if x.op in ('tupleof', 'listof') and kind(x.args[0]).split(':')[0] != 'map':
            x = x.args[0]
        return x

    def iter_zip(self, obj, st):
        lits = [self.try_literal(a, st) for a in obj.args]
        if all(l is not None for l in lits):
            return [Seg(mkseq([lit(s.elem) for s in tup])) for tup in zip(*lits)]
        known = [len(l) for l in lits if l is not None]
        if known and min(known) <= 8:
            n = min(known)
            out = []
            for i in range(n):
                es = []
                for a, l in zip(obj.args, lits):
                    es.append(lit(l[i].elem if l is not None else item(self.as_source(a, st), const(i))))
                out.append(Seg(mkseq(es)))
            return out
        i = fresh_var('i')
        dom = TRUE
        es = []
        srcs = []
        for a in obj.args:
            if a.op == 'range' and isconst(a.args[0], 0) and isconst(a.args[2], 1):
                es.append(lit(i))
                if a.args[1].op == 'len':
                    dom = And(dom, rebuild('idx', (i, a.args[1].args[0])))
                continue
            src = self.as_source(a, st)
            srcs.append(src)
            dom = And(dom, rebuild('idx', (i, src)))
            es.append(lit(item(src, i)))
        src = srcs[0] if len(srcs) == 1 else _intern('zip', tuple(sorted(srcs, key=lambda t: t.id)))
        return [Seg(mkseq(es), i, dom, src)]

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals:
                self.gstore(fr.module, t.id, v, st)
            elif t.id in fr.nonlocals and fr.parent is not None:
                fr.parent.st.env[t.id] = v
            else:
                st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            self.setitem(o, k, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, self.mangle(t.attr), v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, elts, v, st):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vv = self.seqview(v, st)
        for i, e in enumerate(elts):
            if star and i == star[0]:
                hi = len(elts) - i - 1
                self.assign(e.value, self.getitem(vv, mk('slice', const(i), const(-hi) if hi else NONE, NONE), st), st)
            elif star and i > star[0]:
                self.assign(e, self.getitem(vv, const(i - len(elts)), st), st)
            else:
                self.assign(e, self.getitem(vv, const(i), st), st)

    def seqview(self, v, st):
        def f(x):
            ck = self.ckind(x, st)
            if ck == 'list':
                return self.seq_content(x, st)
            return x
        return map_leaves(f, v)

    def gstore(self, module, name, v, st):
        G = self.glob(module, name)
        st.heap[(G, 'val')] = v
        self.ev('gstore', st, target=G, value=self.freeze(v, st))

    def glob(self, module, name):
        b = module.bindings.get(name)
        k = 'any'
        if b is not None and b[0] == 'data':
            e = b[1]
            if isinstance(e, (ast.Dict, ast.DictComp)):
                k = 'map'
            elif isinstance(e, (ast.List, ast.ListComp)):
                k = 'list'
            elif isinstance(e, (ast.Set, ast.SetComp)):
                k = 'set'
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                k = {'dict': 'map', 'list': 'list', 'set': 'set', 'OrderedDict': 'map'}.get(e.func.id, 'any')
            elif name in self.glob_kinds:
                k = self.glob_kinds[name]
        return sym('glob:%s.%s' % (module.name, name), k)

    glob_kinds = {'constants': 'map', 'constant_aliases': 'map'}

    def setitem(self, o, k, v, st, aug=False):
        def f(ob, s):
            self.mutate_event('setitem', ob, s, key=k, value=v, aug=aug)
            ck = self.ckind(ob, s)
            if ck == 'dict' or ck == 'array':
                s.heap[(ob, '#')] = ite(Eq(KEY, k), v, self.map_content(ob, s))
            elif ck == 'list':
                c = self.seq_content(ob, s)
                s.heap[(ob, '#')] = self.seq_set(c, k, v, s)
            elif ob.op == 'ref':
                s.heap[(ob, '#')] = unk('setitem on ' + str(ck))
            elif ck is None:
                # unknown container: remember the write
                s.heap[(ob, '#')] = ite(Eq(KEY, k), v, self.map_content(ob, s))
            if ob.op == 'item':
                self.rehome(ob, s)
            return NONE
        self.split(o, st, f)

    def seq_set(self, c, k, v, st):
        def f(s, kk):
            if kk.op == 'slice':
                lo, hi, step = kk.args
                base = mkseq_value(s)
                new = self.pieces_of(v, st)
                if lo is NONE and hi is NONE:
                    return new
                return lift(lambda nn: mkseq([spread(item(base, mk('slice', NONE, lo, NONE))) if lo is not NONE else spread(mkseq([])),
                                              spread(nn),
                                              spread(item(base, mk('slice', hi, NONE, NONE))) if hi is not NONE else spread(mkseq([]))]),
                            (new,))
            if kk.op == 'const' and kk.args[0] == 'int' and all(p.op == 'lit' for p in s.args):
                n = kk.args[1]
                ps = list(s.args)
                if -len(ps) <= n < len(ps):
                    ps[n] = lit(v)
                    return mkseq(ps)
            at = self.at_position(s, kk, self.freeze(v, st))
            if at is not None:
                return at
            return mkseq([spread(_intern('setidx', (mkseq_value(s), kk, self.freeze(v, st))))])
        return lift(f, (c, k))

    def at_position(self, s, k, v):
        """The sequence s, one item per position of another, with v at position k >= 0."""
        if not (k.op == 'const' and k.args[0] == 'int' and k.args[1] >= 0 or
                k.op == 'call' and k.args[0].op == 'attr' and k.args[0].args[1] == 'index'):
            return None
        if s.op != 'seq' or len(s.args) != 1 or s.args[0].op != 'each':
            return None
        src, lc, lv = s.args[0].args
        i = fresh_var('k')
        if as_cond(open_lam(lc, i)) is In(i, src) and src.op not in ('D', 'S'):
            e = open_lam(lv, item(src, i))
        elif as_cond(open_lam(lc, i)) is as_cond(rebuild('idx', (i, src))):
            e = open_lam(lv, i)
        else:
            return None
        if e.op != 'seq' or len(e.args) != 1 or e.args[0].op != 'lit':
            return None
        return mkseq(mkeach(src, i, as_cond(rebuild('idx', (i, src))),
                            mkseq([lit(ite(Eq(i, k), v, e.args[0].args[0]))])))

    def mutate_event(self, what, obj, st, **data):
        for leaf in leaves(obj):
            if leaf.op == 'ref' and self.refkind(leaf) in ('dict', 'list', 'set', 'inst'):
                continue
            c = map_leaves(lambda x: TRUE if x is leaf else FALSE, obj)
            d = {k: (self.freeze(v, st) if isinstance(v, T) else v) for k, v in data.items()}
            s = St({}, {}, And(st.g, c), st.assume)
            self.ev('mutate', s, what=what, target=leaf, **d)

    # ---------------------------------------------------------------- attributes
    def mangle(self, name):
        cls = self.frames[-1].cls if self.frames else None
        if name.startswith('__') and not name.endswith('__') and cls is not None:
            return '_%s%s' % (cls.node.name.lstrip('_'), name)
        return name

    def setattr(self, o, name, v, st):
        def f(ob, s):
            if ob.op == 'module' and ob.args[0] in self.prog.modules:
                self.gstore(self.prog.modules[ob.args[0]], name, v, s)
                return NONE
            ci = self.class_of(ob)
            if ci is not None:
                for c in ci.mro():
                    if name in c.setters:
                        self.call_func(c.setters[name], [ob, v], {}, s)
                        return NONE
            if name == 'attrs':
                # xarray copies the mapping on assignment
                fv = self.freeze(v, s)
                self.mutate_event('setattr', ob, s, name=name, value=fv)
                s.heap[(ob, '.attrs')] = fv
                return NONE
            s.heap[(ob, '.' + name)] = v
            if ob.op != 'ref' or self.refkind(ob) != 'inst':
                self.mutate_event('setattr', ob, s, name=name, value=v)
            if self.selfobj is not None and ob is self.selfobj:
                self.ev('selfstore', s, name=name, value=self.freeze(v, s))
            return NONE
        self.split(o, st, f)

    selfobj = None

    def class_of(self, ob):
        if ob.op == 'ref':
            k, info = self.refinfo[ob]
            return info if k == 'inst' else None
        if ob.op == 'sym' and ob.args[1].startswith('inst:'):
            return self.prog.classes.get(ob.args[1][5:])
        return None

    def getattr(self, o, name, st):
        return self.split(o, st, lambda ob, s: self.getattr1(ob, name, s))

    def getattr1(self, ob, name, st):
        key = (ob, '.' + name)
        if key in st.heap:
            return self.prune(st.heap[key], st)
        if ob.op == 'module':
            m = self.prog.modules[ob.args[0]]
            return self.module_name(m, name, st)
        if ob.op == 'ext':
            return _intern('ext', (ob.args[0] + '.' + name,))
        if ob.op == 'super':
            ci = self.prog.classes[ob.args[0]]
            obj = ob.args[1]
            oc = self.class_of(obj) or ci
            if ci not in oc.mro():
                return self.unknown('super outside the hierarchy')
            c, mem = oc.find(name, after=ci)
            if mem is None:
                return _intern('supermeth', (obj, name))
            return self.member(obj, oc, c, mem, name, st)
        if ob.op == 'class':
            ci = self.prog.classes.get(ob.args[0])
            if ci is not None:
                if name == '__name__':
                    return const(ci.node.name)
                c, mem = ci.find(name)
                if isinstance(mem, FuncInfo):
                    if mem.kind == 'classm':
                        return _intern('bound', (ob, _intern('func', (mem.qual,))))
                    return _intern('func', (mem.qual,))
                if mem is not None:
                    return self.class_data(c, name, mem[1], st)
                mc = ci.metaclass(self.prog)
                if mc is not None:
                    c, mem = mc.find(name)
                    if isinstance(mem, FuncInfo) and mem.kind == 'func':
                        return _intern('bound', (ob, _intern('func', (mem.qual,))))
            return mk('attr', ob, name)
        if ob.op == 'argspec':
            r = self.argspec_attr(ob, name)
            if r is not None:
                return r
        ci = self.class_of(ob)
        if ci is not None:
            if name == '__class__':
                return _intern('class', (ci.qual,)) if ob.op == 'ref' else mk('attr', ob, name)
            if name == '__dict__':
                return mk('attr', ob, name)
            c, mem = ci.find(name)
            if mem is not None:
                return self.member(ob, ci, c, mem, name, st)
            if ob.op == 'ref' or ci.find('__getattr__')[1] is not None:
                c, ga = ci.find('__getattr__')
                if ga is not None and not (name.startswith('__') and name.endswith('__')) \
                        and not self.attr_ever_set(ci, name):
                    return self.call_func(ga, [ob, const(name)], {}, st)
            if ob.op == 'ref' and not ci.external_bases():
                if self.attr_ever_set(ci, name):
                    return mk('attr', self.freeze(ob, st), name)
                if self.catching('AttributeError'):
                    self.may_raise(None, st, 'AttributeError', TRUE)
                    raise Dead()
                return err('AttributeError')
            if self.lacks(ob, name):
                if self.catching('AttributeError'):
                    self.may_raise(None, st, 'AttributeError', TRUE)
                    raise Dead()
                return err('AttributeError')
            r = mk('attr', ob, name)
            if self.tries and self.catching('AttributeError'):
                self.may_raise(r, st, 'AttributeError', Not(mk('hasattr', ob, const(name))))
            return r
        if ob.op == 'exc' and name == 'args':
            return mk('attr', ob, name)
        if ob.op == 'wattrs':
            return ob.args[1] if name == 'attrs' else mk('attr', ob.args[0], name)
        if name == '__class__':
            return mk('attr', ob, name)
        r = mk('attr', self.freeze(ob, st) if ob.op == 'ref' else ob, name)
        if name == 'attrs':
            r = self.attrs_of(ob, st)
        if self.tries and self.catching('AttributeError'):
            self.may_raise(r, st, 'AttributeError', Not(mk('hasattr', ob, const(name))))
        return r

    def attrs_of(self, ob, st):
        """attrs mapping of an array value; arithmetic keeps the left operand's."""
        return _intern('attr', (self.freeze(ob, st) if ob.op == 'ref' else ob, 'attrs'))

    def argspec_attr(self, ob, name):
        fi = self.prog.funcs.get(ob.args[0].args[0])
        a = fi.node.args
        if name == 'args':
            return mkseq([lit(const(x.arg)) for x in a.posonlyargs + a.args])
        if name == 'defaults':
            if not a.defaults:
                return NONE
            if all(isinstance(d, ast.Constant) for d in a.defaults):
                return mkseq([lit(const(d.value)) for d in a.defaults])
        return None

    def attr_ever_set(self, ci, name):
        for c in ci.mro():
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    nm = n.attr
                    if nm.startswith('__') and not nm.endswith('__'):
                        nm = '_%s%s' % (c.node.name.lstrip('_'), nm)
                    if nm == name:
                        return True
        return False

    def class_data(self, ci, name, expr, st):
        k = ('cd', ci.qual, name)
        if k in self.data_memo:
            return self.data_memo[k]
        r = self.eval_static(expr, ci.module, ci)
        if r.op in ('D', 'list', 'S') and self.prog.attr_mutated(name):
            kd = {'D': 'map', 'list': 'list', 'S': 'set'}[r.op]
            r = sym('classdata:%s.%s' % (ci.qual, name), kd)
        self.data_memo[k] = r
        return r

    def eval_static(self, expr, module, ci=None):
        fr = Frame(FuncInfo(module.name, None, module), module, ci)
        saved = self.frames, self.tries, self.binders
        self.frames, self.tries, self.binders = [fr], [], []
        self.quiet += 1
        s = St({}, {})
        fr.st = s
        try:
            v = self.eval(expr, s)
            return self.freeze(v, s)
        except (Dead, Abort, RecursionError):
            return unk('static data')
        finally:
            self.quiet -= 1
            self.frames, self.tries, self.binders = saved

    def member(self, ob, ci, c, mem, name, st):
        if isinstance(mem, FuncInfo):
            if mem.kind == 'property':
                if mem.qual in self.opaque:
                    return mk('attr', ob, name)
                return self.call_func(mem, [ob], {}, st)
            if mem.kind == 'abstractproperty':
                return mk('attr', ob, name)
            if mem.kind == 'abstract':
                return mk('attr', ob, name) if ob.op != 'ref' else _intern('attr', (self.freeze(ob, st), name))
            if mem.kind == 'static':
                return _intern('func', (mem.qual,))
            if mem.kind == 'classm':
                return _intern('bound', (mk('attr', ob, '__class__') if ob.op != 'ref' else _intern('class', (ci.qual,)),
                                         _intern('func', (mem.qual,))))
            return _intern('bound', (ob, _intern('func', (mem.qual,))))
        # class level data; public names may be overridden by a subclass
        if ob.op == 'sym' and not (name.startswith('_') and not name.endswith('__')):
            return mk('attr', ob, name)
        return self.class_data(c, name, mem[1], st)

    # -------------------------------------------------------------------- names
    def name(self, n, st):
        fr = self.frames[-1]
        if n in st.env and n not in fr.globals:
            v = self.prune(st.env[n], st)
            return v
        p = fr.parent
        while p is not None:
            env = p.st.env if p.st is not None else {}
            if n in env:
                return self.prune(env[n], st)
            p = p.parent
        return self.module_name(fr.module, n, st)

    def module_name(self, m, n, st):
        r = self.prog.resolve(m, n)
        if r is not None:
            return self.binding_value(r, st)
        sub = m.name + '.' + n
        if sub in self.prog.modules:
            return _intern('module', (sub,))
        if n == '__name__':
            return const(m.name)
        if n in BUILTINS:
            if n == 'True':
                return TRUE
            return _intern('builtin', (n,))
        return _intern('ext', (self.late_imports(m).get(n, '?' + n),))

    def late_imports(self, m):
        """Names which functions of the module import as globals of it."""
        if not hasattr(m, 'late'):
            m.late = {}
            for d in ast.walk(m.tree):
                if not isinstance(d, ast.FunctionDef):
                    continue
                names = {x for g in ast.walk(d) if isinstance(g, ast.Global) for x in g.names}
                for i in ast.walk(d) if names else ():
                    if isinstance(i, ast.Import):
                        for a in i.names:
                            if (a.asname or a.name) in names and a.name not in self.prog.modules:
                                m.late[a.asname or a.name] = a.name
                    elif isinstance(i, ast.ImportFrom) and not i.level and i.module not in self.prog.modules:
                        for a in i.names:
                            if (a.asname or a.name) in names:
                                m.late[a.asname or a.name] = i.module + '.' + a.name
        return m.late

    def binding_value(self, r, st):
        if r[0] == 'func':
            return _intern('func', (r[1].qual,))
        if r[0] == 'class':
            return _intern('class', (r[1].qual,))
        if r[0] == 'module':
            return _intern('module', (r[1].name,))
        if r[0] == 'modext':
            return _intern('ext', (r[1],))
        if r[0] == 'ext':
            return _intern('ext', (r[1],))
        _, m, name = r
        if name in m.mutable_globals:
            G = self.glob(m, name)
            return self.prune(st.heap.get((G, 'val'), G), st)
        k = ('data', m.name, name)
        if k not in self.data_memo:
            self.data_memo[k] = unk('recursive data')
            self.data_memo[k] = self.eval_static(m.bindings[name][1], m)
        return self.data_memo[k]

    # --------------------------------------------------------------- expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.unknown('unsupported expression ' + type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.name(n.id, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Tuple(self, n, st):
        return self.build_seq(n.elts, st)

    def build_seq(self, elts, st):
        ps = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.pieces_of(self.eval(e.value, st), st)
                ps.append(spread(s))
            else:
                ps.append(lit(self.eval(e, st)))
        return rebuild('seq', ps)

    def e_List(self, n, st):
        return self.new_list(st, self.build_seq(n.elts, st))

    def e_Set(self, n, st):
        c = FALSE
        for e in n.elts:
            c = Or(c, Eq(KEY, self.eval(e, st)))
        return self.new_set(st, c)

    def e_Dict(self, n, st):
        c = ABSENT
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, st)
                c = self.overlay(c, o, st)
            else:
                kk = self.eval(k, st)
                vv = self.eval(v, st)
                c = ite(Eq(KEY, kk), vv, c)
        return self.new_dict(st, c)

    def overlay(self, c, o, st):
        """c updated by the mapping value o."""
        def f(ob):
            mc = self.map_content(ob, st) if self.ckind(ob, st) in ('dict', None) else None
            if mc is None:
                return c
            return map_leaves(lambda t: c if t is ABSENT else t, self.unbase(mc))
        return lift(f, (o,))

    def e_JoinedStr(self, n, st):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                ps.append(self.strval(x, st, v.conversion, v.format_spec))
        return mkstr(ps)

    def strval(self, x, st, conv=-1, spec=None):
        x = self.freeze(x, st)
        if conv == 114:
            return mk('repr', x)
        if spec is not None:
            return mk('fmt', x, self.eval(spec, st))
        return x

    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self.getattr(o, self.mangle(n.attr), st)

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        k = self.eval_index(n.slice, st)
        return self.getitem(o, k, st)

    def eval_index(self, n, st):
        if isinstance(n, ast.Slice):
            return mk('slice', *[self.eval(x, st) if x is not None else NONE
                                 for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return mkseq([lit(self.eval_index(e, st)) for e in n.elts])
        v = self.eval(n, st)
        return self.freeze(v, st)

    e_Slice = eval_index

    def getitem(self, o, k, st, thaw=True):
        return self.split(o, st, lambda ob, s: self.getitem1(ob, k, s, thaw))

    def getitem1(self, ob, k, st, thaw=True):
        ck = self.ckind(ob, st)
        if ck == 'dict':
            ci = None
            content = self.map_content(ob, st)
            v = self.lookup(content, k)
            v = self.prune(v, st)
            if self.tries and self.catching('KeyError'):
                self.may_raise(None, st, 'KeyError', Not(present(v)))
            elif v is ABSENT:
                self.raise_('KeyError', st)
                raise Dead()
            v2 = map_leaves(lambda t: err('KeyError') if t is ABSENT else t, v)
            lv = leaves(v2)
            if len(lv) == 2 and err('KeyError') in lv:
                v2 = [x for x in lv if x is not err('KeyError')][0]
            elif len(lv) > 2 and err('KeyError') in lv:
                v2 = self.prune_err(v2)
            if thaw and (ob, '#') in st.heap and any(l.op in ('D', 'list', 'S') for l in leaves(v2)):
                v2 = self.thaw(v2, st)
                st.heap[(ob, '#')] = ite(Eq(KEY, k), v2, content)
            return v2
        if ck == 'list' or ck == 'seq':
            c = self.seq_content(ob, st)
            if k.op == 'slice':
                r = lift(lambda s, kk: self.slice(s, kk), (c, k))
                return self.new_list(st, self.as_seq(r)) if ck == 'list' and ob.op in ('ref', 'list') else r
            if self.tries and self.catching('IndexError'):
                self.may_raise(None, st, 'IndexError', Not(rebuild('idx', (k, self.freeze(ob, st)))))
            r = lift(lambda s, kk: item(mkseq_value(s), kk), (c, k))
            return r
        if ck == 'array':
            return mk('item', self.freeze(ob, st), k)
        if ck == 'set':
            return self.unknown('subscript of a set')
        if ob.op == 'err':
            return ob
        r = item(self.freeze(ob, st), k)
        if self.tries and self.catching('KeyError') and self.calls_raise:
            self.may_raise(r, st, 'KeyError', Not(In(k, ob)))
        return r

    def prune_err(self, v):
        e = err('KeyError')
        ok = map_leaves(lambda t: FALSE if t is e else TRUE, v)
        return constrain(v, ok)

    def as_seq(self, r):
        return map_leaves(lambda t: t if t.op == 'seq' else mkseq([spread(t)]), r)

    def slice(self, s, k):
        base = mkseq_value(s)
        return item(base, k)

    def thaw(self, v, st):
        def f(t):
            if t.op == 'D':
                return self.new_dict(st, app(t.args[0], KEY))
            if t.op == 'list':
                return self.new_list(st, t.args[0])
            if t.op == 'S':
                return self.new_set(st, as_cond(app(t.args[0], KEY)))
            return t
        return map_leaves(f, v)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand, st))
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.USub):
            return lift(lambda x: const(-cval(x)) if isnum(x) else arith('mul', const(-1), x), (v,))
        if isinstance(n.op, ast.UAdd):
            return v
        return mk('invert', v)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b, st)

    OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow',
           ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.MatMult: 'matmul'}

    def binop(self, op, a, b, st):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            r = self.setop(op, a, b, st)
            if r is not None:
                return r
        if isinstance(op, ast.BitOr) and self.allkind(a, st, 'dict'):
            r = self.new_dict(st, self.overlay(self.unbase(self.map_content(a, st)), b, st))
            return r
        if isinstance(op, ast.BitAnd):
            return And(truth(a), truth(b)) if self.isbool(a) and self.isbool(b) else mk('bitand', a, b)
        if isinstance(op, ast.BitOr):
            return Or(truth(a), truth(b)) if self.isbool(a) and self.isbool(b) else mk('bitor', a, b)
        o = self.OPS.get(type(op))
        if o is None:
            return mk(type(op).__name__.lower(), a, b)
        if o == 'mod' and any(isstr(x) for x in leaves(a)):
            return lift(lambda x: self.percent(x, b, st), (a,))
        if o == 'add':
            ka, kb = self.ckinds(a, st), self.ckinds(b, st)
            if ka <= {'list'} and ka or kb <= {'list'} and kb:
                return self.new_list(st, self.seq_join(self.pieces_of(a, st), self.pieces_of(b, st)))
            if ka <= {'seq'} and ka and kb <= {'seq'} and kb:
                return self.seq_join(self.pieces_of(a, st), self.pieces_of(b, st))
        if o == 'mul':
            for x, y in ((a, b), (b, a)):
                kx = self.ckinds(x, st)
                if kx and kx <= {'seq', 'list'}:
                    s = self.pieces_of(x, st)
                    if s.op == 'seq' and isnum(y) and all(p.op == 'lit' for p in s.args):
                        r = mkseq(list(s.args) * cval(y))
                    elif y.op == 'len' and s.op == 'seq':
                        v = fresh_var('k')
                        r = mkseq(mkeach(y.args[0], v, In(v, y.args[0]), s))
                    else:
                        r = mkseq([spread(mk('repeat', s, self.freeze(y, st)))])
                    return self.new_list(st, r) if kx == {'list'} else r
        r = arith(o, self.freeze(a, st), self.freeze(b, st))
        if self.tries and r.op not in ('const', 'str') and self.catching(
                'ValueError', 'TypeError', 'ZeroDivisionError'):
            self.may_raise(r, st)
        return r

    def isbool(self, v):
        return all(l in (TRUE, FALSE) for l in leaves(v))

    def allkind(self, v, st, k):
        return self.ckinds(v, st) == {k}

    def ckinds(self, v, st):
        return {self.ckind(l, st) for l in leaves(v)}

    def seq_join(self, a, b):
        return lift(lambda x, y: mkseq(list(x.args) + list(y.args)), (a, b))

    def setop(self, op, a, b, st):
        ka, kb = self.ckinds(a, st), self.ckinds(b, st)
        va = all(l.op == 'view' for l in leaves(a))
        if not ((ka == {'set'} or va) and (kb == {'set'} or all(l.op == 'view' for l in leaves(b)))):
            return None
        x, y = self.as_pred(a, st), self.as_pred(b, st)
        if isinstance(op, ast.BitAnd):
            c = And(x, y)
        elif isinstance(op, ast.BitOr):
            c = Or(x, y)
        elif isinstance(op, ast.Sub):
            c = And(x, Not(y))
        else:
            c = Or(And(x, Not(y)), And(Not(x), y))
        return self.new_set(st, c)

    def as_pred(self, v, st):
        """Membership predicate (over KEY) of any container value."""
        def f(ob):
            return self.contains(KEY, ob, st)
        return lift(f, (v,))

    def contains(self, x, ob, st):
        if ob.op == 'view':
            k, o = ob.args
            if k == 'keys':
                return lift(lambda oo: self.contains(x, oo, st), (o,))
            if k == 'values':
                s = self.pieces_of(ob, st)
                return In(x, s)
            return In(x, self.pieces_of(ob, st))
        if ob.op == 'attr' and ob.args[1] == '__dict__' and ob.args[0].op == 'ref' and isstr(x) \
                and self.class_of(ob.args[0]) is not None:
            v = st.heap.get((ob.args[0], '.' + x.args[1]))
            if v is None:                       # every write to an object made here is seen
                return FALSE
            return map_leaves(lambda t: FALSE if t is UNDEF else TRUE, v)
        ck = self.ckind(ob, st)
        if ck == 'dict':
            return present(self.lookup(self.map_content(ob, st), x))
        if ck == 'set':
            return as_cond(subst(self.set_content(ob, st), {KEY: x}))
        if ck in ('list', 'seq'):
            return In(x, map_leaves(mkseq_value, self.freeze_seq(self.seq_content(ob, st), st)))
        if ob.op in ('zip', 'enumerate', 'range'):
            return mk('in', x, ob)
        return In(x, self.freeze(ob, st))

    def percent(self, fmt, args, st):
        if not isstr(fmt):
            return mk('mod', fmt, self.freeze(args, st))
        parts = fmt.args[1].split('%s')
        if '%' in ''.join(parts):
            return mk('percentfmt', fmt, self.freeze(args, st))
        vs = [p.args[0] for p in args.args] if args.op == 'seq' else [args]
        if len(vs) != len(parts) - 1:
            return mk('percentfmt', fmt, self.freeze(args, st))
        ps = [const(parts[0])]
        for v, p in zip(vs, parts[1:]):
            ps += [self.strval(v, st), const(p)]
        return mkstr(ps)

    def e_BoolOp(self, n, st):
        return self.boolop(isinstance(n.op, ast.And), n.values, st)

    def boolop(self, is_and, values, st):
        v = self.eval(values[0], st)
        if len(values) == 1:
            return v
        c = self.prune(truth_of(self, v, st), st)
        if c is TRUE:
            return self.boolop(is_and, values[1:], st) if is_and else v
        if c is FALSE:
            return v if is_and else self.boolop(is_and, values[1:], st)
        go = c if is_and else Not(c)
        s = st.copy()
        s.g = And(st.g, go)
        try:
            r = self.boolop(is_and, values[1:], s)
        except Dead:
            st.assume = And(st.assume, Not(go))
            return v
        self.join_into(st, go, s)
        if all(l in (TRUE, FALSE) for l in leaves(r)):
            stay = FALSE if is_and else TRUE
            if all(l in (TRUE, FALSE) for l in leaves(v)) :
                stay = v
            return ite(go, r, stay if stay is not v else (FALSE if is_and else TRUE))
        return ite(go, r, v)

    def join_into(self, st, c, s):
        """s ran under c; merge it into st."""
        if s.heap == st.heap and s.env == st.env and s.assume is st.assume:
            return
        g = st.g
        m = self.merge(c, s, st)
        m.g = g
        st.become(m)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.eval(n.body, st)
        if c is FALSE:
            return self.eval(n.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.g, s2.g = And(st.g, c), And(st.g, Not(c))
        a = b = None
        try:
            a = self.eval(n.body, s1)
        except Dead:
            pass
        try:
            b = self.eval(n.orelse, s2)
        except Dead:
            pass
        if a is None and b is None:
            raise Dead()
        g = st.g
        if a is None:
            s2.assume = And(s2.assume, Not(c))
            s2.g = g
            st.become(s2)
            return b
        if b is None:
            s1.assume = And(s1.assume, c)
            s1.g = g
            st.become(s1)
            return a
        m = self.merge(c, s1, s2)
        m.g = g
        st.become(m)
        return ite(c, a, b)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        r = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st)
            r = And(r, self.compare(op, left, right, st))
            left = right
        return r

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            x = self.freeze(a, st)
            r = lift(lambda ob: self.contains_lift(x, ob, st), (b,))
            return r if isinstance(op, ast.In) else Not(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = Is(a, b)
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            ka, kb = self.ckinds(a, st), self.ckinds(b, st)
            if (ka == {'set'} or kb == {'set'}) and ka | kb <= {'set', None}:
                v = fresh_var('k')
                x, y = (as_cond(subst(self.as_pred(t, st), {KEY: v})) for t in (a, b))
                diff = Or(And(x, Not(y)), And(y, Not(x)))
                r = Not(some(v, diff))
            else:
                r = Eq(self.freeze(a, st), self.freeze(b, st))
            return r if isinstance(op, ast.Eq) else Not(r)
        a, b = self.freeze(a, st), self.freeze(b, st)
        if isinstance(op, ast.Lt):
            return Lt(a, b)
        if isinstance(op, ast.Gt):
            return Lt(b, a)
        if isinstance(op, ast.LtE):
            return Not(Lt(b, a))
        return Not(Lt(a, b))

    def contains_lift(self, x, ob, st):
        return lift(lambda xx: self.contains(xx, ob, st), (x,))

    def e_Lambda(self, n, st):
        fr = self.frames[-1]
        body = ast.Return(value=n.body)
        ast.copy_location(body, n)
        fn = ast.FunctionDef(name='<lambda>', args=n.args, body=[body], decorator_list=[])
        ast.copy_location(fn, n)
        q = '%s.<lambda@%d:%d>' % (fr.func.qual if fr.func else '', n.lineno, n.col_offset)
        fi = FuncInfo(q, fn, fr.module, fr.cls, env=fr)
        self.local_funcs[q] = fi
        return _intern('func', (q,))

    # comprehensions -------------------------------------------------------------
    def comp(self, gens, st, add):
        env0 = dict(st.env)
        outer = self.frames[-1]

        def run(i, s):
            if i == len(gens):
                add(s)
                return s
            g = gens[i]
            it = self.eval(g.iter, s)

            def body(elem, s2):
                self.assign(g.target, elem, s2)
                c, g0 = TRUE, s2.g
                for t in g.ifs:
                    cc = self.cond(t, s2)
                    c = And(c, cc)
                    s2.g = And(s2.g, cc)
                    if s2.g is FALSE:
                        s2.g = g0
                        return s2
                if c is TRUE:
                    return run(i + 1, s2)
                s3 = s2.copy()
                s2.g = g0
                if c is FALSE:
                    return s2
                o = run(i + 1, s3)
                m = self.merge(c, o, s2)
                m.g = g0
                return m
            st2, _ = self.loop(it, body, s, g.iter)
            return st2
        out = run(0, st)
        if out is not st:
            st.become(out)
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            if n in env0:
                st.env[n] = env0[n]
            else:
                st.env.pop(n, None)

    def e_ListComp(self, n, st):
        r = self.new_list(st)

        def add(s):
            v = self.eval(n.elt, s)
            s.heap[(r, '#')] = lift(lambda q: mkseq(list(q.args) + [lit(v)]), (s.heap[(r, '#')],))
        self.comp(n.generators, st, add)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        r = self.new_set(st)

        def add(s):
            v = self.freeze(self.eval(n.elt, s), s)
            s.heap[(r, '#')] = Or(s.heap[(r, '#')], Eq(KEY, v))
        self.comp(n.generators, st, add)
        return r

    def e_DictComp(self, n, st):
        r = self.new_dict(st)

        def add(s):
            k = self.freeze(self.eval(n.key, s), s)
            v = self.eval(n.value, s)
            s.heap[(r, '#')] = ite(Eq(KEY, k), v, s.heap[(r, '#')])
        self.comp(n.generators, st, add)
        return r

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        fr = self.frames[-1]
        v = self.eval(n.value, st) if n.value else NONE
        if fr.yref is not None:
            st.heap[(fr.yref, '#')] = lift(lambda q: mkseq(list(q.args) + [lit(v)]),
                                           (st.heap[(fr.yref, '#')],))
        return NONE

    def e_YieldFrom(self, n, st):
        fr = self.frames[-1]
        s = self.pieces_of(self.eval(n.value, st), st)
        if fr.yref is not None:
            st.heap[(fr.yref, '#')] = self.seq_join(st.heap[(fr.yref, '#')], s)
        return NONE

    # --------------------------------------------------------------------- calls
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and n.func.id not in st.env:
            return self.make_super(n, st)
        old = self.loc
        self.loc = (old[0], n.lineno, old[2])
        try:
            meth = None
            if isinstance(n.func, ast.Attribute):
                recv = self.eval(n.func.value, st)
                meth = self.mangle(n.func.attr)
            else:
                f = self.eval(n.func, st)
            args, kwargs, star = self.eval_args(n, st)
            if meth is not None:
                return self.split(recv, st, lambda ob, s: self.call_method(ob, meth, args, kwargs, s, star))
            return self.split(f, st, lambda fv, s: self.call(fv, args, kwargs, s, star))
        finally:
            self.loc = old

    def eval_args(self, n, st):
        args, kwargs, star = [], {}, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.pieces_of(self.eval(a.value, st), st)
                if v.op == 'seq' and all(p.op == 'lit' for p in v.args):
                    args.extend(p.args[0] for p in v.args)
                else:
                    args.append(_intern('star', (v,)))
                    star = True
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if v.op != 'phi':
                    c = self.map_content(v, st)
                    keys = finite_keys(c)
                    if keys is not None and all(isstr(x) for x in keys):
                        for x in keys:
                            kwargs[x.args[1]] = self.lookup(c, x)
                        continue
                kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs, star

    def make_super(self, n, st):
        fr = self.frames[-1]
        if n.args:
            c = self.eval(n.args[0], st)
            o = self.eval(n.args[1], st)
            return mk('super', c.args[0], o) if c.op == 'class' else self.unknown('super')
        cls = fr.cls
        o = st.env.get(fr.func.node.args.args[0].arg) if fr.func.node.args.args else None
        if cls is None or o is None:
            return self.unknown('super')
        return mk('super', cls.qual, o)

    def call(self, f, args, kwargs, st, star=False):
        op = f.op
        if op == 'func':
            fi = self.prog.funcs.get(f.args[0]) or self.local_funcs.get(f.args[0])
            if fi is None:
                return self.opaque_call(f, args, kwargs, st)
            if fi.qual in self.opaque or star and not self.star_ok(fi, args):
                return self.opaque_repo(fi, args, kwargs, st)
            return self.call_func(fi, args, kwargs, st)
        if op == 'bound':
            o, fn = f.args
            return self.split(o, st, lambda ob, s: self.call(fn, [ob] + list(args), kwargs, s, star))
        if op == 'builtin':
            return self.builtin(f.args[0], args, kwargs, st)
        if op == 'class':
            return self.instantiate(f, args, kwargs, st)
        if op == 'partial':
            fn = f.args[0]
            pre = [p.args[0] for p in f.args[1].args]
            kw = {k.args[0]: k.args[1] for k in f.args[2:]}
            kw.update(kwargs)
            return self.call(fn, pre + list(args), kw, st, star)
        if op == 'methval':
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, star)
        if op == 'attr':
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, star)
        if op == 'ext':
            return self.ext_call(f, args, kwargs, st)
        ci = self.class_of(f)
        if ci is not None:
            c, mem = ci.find('__call__')
            if isinstance(mem, FuncInfo) and mem.kind == 'func' and mem.qual not in self.opaque:
                return self.call_func(mem, [f] + list(args), kwargs, st)
        if op == 'err':
            return f
        return self.opaque_call(f, args, kwargs, st)

    def star_ok(self, fi, args):
        """*args passed straight into *params."""
        a = fi.node.args
        return a.vararg is not None

    def instantiate(self, f, args, kwargs, st):
        ci = self.prog.classes[f.args[0]]
        ext = ci.external_bases()
        if ext:
            if any(x.split('.')[-1].endswith(('Error', 'Exception', 'Warning')) for x in ext):
                return _intern('exc', (ci.qual.split('.')[-1],))
            if set(x.split('.')[-1] for x in ext) <= {'dict', 'OrderedDict'} and not kwargs and len(args) < 2 \
                    and ci.find('__init__')[1] is None:
                return self.builtin('dict', list(args), {}, st)
            return self.opaque_call(f, args, kwargs, st)
        if f.args[0] in self.opaque:
            return self.opaque_call(f, args, kwargs, st)
        r = self.alloc('inst', st, None, ci)
        c, init = ci.find('__init__')
        self.ev('new', st, cls=ci.qual)
        if isinstance(init, FuncInfo):
            self.call_func(init, [r] + list(args), kwargs, st)
        return r

    def call_func(self, fi, args, kwargs, st):
        if len(self.frames) > self.MAXDEPTH or self.callstack.count(fi.qual) >= 2:
            self.note('recursion limit at ' + fi.qual)
            return self.opaque_repo(fi, args, kwargs, st)
        memo = [ast.unparse(d) for d in fi.node.decorator_list] if fi.node.decorator_list else []
        for d in memo:
            if 'cache' in d:
                self.ev('memo', st, func=fi.qual)
        a = fi.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        rest = []
        for i, v in enumerate(args):
            if v.op == 'star':
                rest.append(spread(v.args[0]))
            elif i < len(params) and not rest:
                env[params[i]] = v
            else:
                rest.append(lit(v))
        if a.vararg is not None:
            env[a.vararg.arg] = rebuild('seq', rest)
        elif rest:
            self.note('too many arguments for ' + fi.qual)
            return self.unknown('arguments')
        starkw = kwargs.pop('**', None)
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        # ** content may fill parameters
        if starkw is not None:
            c = self.unbase(self.map_content(starkw, st)) if starkw.op != 'phi' else None
            if c is None:
                c = lift(lambda o: self.unbase(self.map_content(o, st)), (starkw,))
        else:
            c = ABSENT
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in params + kwonly:
            if p in env:
                continue
            dv = None
            if p in defaults:
                dv = self.default_value(fi, defaults[p], p)
            if starkw is not None:
                v = self.lookup(c, const(p))
                env[p] = map_leaves(lambda t: (dv if dv is not None else UNDEF) if t is ABSENT else t, v)
                c = ite(Eq(KEY, const(p)), ABSENT, c)
            elif dv is not None:
                env[p] = dv
            else:
                self.note('missing argument %s for %s' % (p, fi.qual))
                env[p] = unk('missing argument')
        if a.kwarg is not None:
            for k, v in extra.items():
                c = ite(Eq(KEY, const(k)), v, c)
            env[a.kwarg.arg] = self.new_dict(st, c)
        elif extra:
            self.note('unexpected keyword for ' + fi.qual)
        self.stats['calls'] += 1
        self.stats['functions'].add(fi.qual)
        fr = Frame(fi, fi.module, fi.cls, fi.env if isinstance(fi.env, Frame) else None)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fi.node))
        s = St(env, st.heap, st.g, st.assume)
        if isgen:
            fr.yref = self.new_list(s)
        entry_g = st.g
        self.frames.append(fr)
        self.callstack.append(fi.qual)
        fr.st = s
        old = self.loc
        try:
            out = self.block(fi.node.body, s)
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.loc = old
        exits = fr.exits
        if out is not None:
            exits = exits + [(out.g, NONE, out.heap, out.assume)]
        if not exits:
            raise Dead()
        g, v, hp, asm = exits[-1]
        cur = St({}, hp, g, asm)
        for g2, v2, hp2, asm2 in reversed(exits[:-1]):
            cc = given(g2, entry_g)
            # prefer the smaller discriminator
            v = ite(cc, v2, v)
            cur = self.merge(cc, St({}, hp2, g2, asm2), cur)
        tot = cur.g
        st.heap = cur.heap
        st.assume = cur.assume
        if tot is not entry_g:
            k = given(tot, entry_g)
            if k is not TRUE:
                # part of the entry paths raised
                st.assume = And(st.assume, k)
        v = given(v, And(entry_g, st.assume)) if v.op == 'phi' else v
        st.g = entry_g
        if isgen:
            return fr.yref
        return v

    def default_value(self, fi, node, p):
        k = ('dflt', fi.qual, p, fi.node.lineno)
        if isinstance(fi.env, Frame):
            return self.eval_static(node, fi.module, fi.cls) if not isinstance(node, ast.Name) else \
                (fi.env.st.env.get(node.id) or self.eval_static(node, fi.module, fi.cls))
        if k not in self.data_memo:
            v = self.eval_static(node, fi.module, fi.cls)
            if v.op in ('D', 'list', 'S'):
                # one shared mutable object per function: visible state
                kd = {'D': 'map', 'list': 'list', 'S': 'set'}[v.op]
                v = sym('default:%s.%s' % (fi.qual, p), kd)
                self.note_default = True
            self.data_memo[k] = v
        return self.data_memo[k]

    def opaque_repo(self, fi, args, kwargs, st):
        """Call of an analysed-elsewhere function: arguments in signature order."""
        a = fi.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(params) and v.op != 'star':
                bound[params[i]] = v
            else:
                rest.append(v)
        for k, v in kwargs.items():
            bound[k] = v
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        out = []
        for p in params:
            if p in bound:
                out.append(self.freeze(bound.pop(p), st))
            elif p in defaults:
                d = self.default_value(fi, defaults[p], p)
                out.append(d)
            else:
                out.append(UNDEF)
        out += [self.freeze(v, st) for v in rest]
        kws = [mk('kw', k, self.freeze(v, st)) for k, v in sorted(bound.items())]
        f = _intern('func', (fi.qual,))
        return self.finish_call(f, out + kws, st)

    def opaque_call(self, f, args, kwargs, st):
        if f.op == 'attr' and f.args[1] == 'copy' and not args and list(kwargs) == ['deep'] and kwargs['deep'] is TRUE:
            kwargs = {}  # the default of every copy method that takes it
        fz = [self.freeze(v, st) for v in args]
        kws = [mk('kw', k, self.freeze(v, st)) for k, v in sorted(kwargs.items())]
        if f.op == 'attr':
            f = _intern('attr', (self.freeze(f.args[0], st), f.args[1]))
        return self.finish_call(f, fz + kws, st)

    def finish_call(self, f, args, st):
        if f.op == 'attr' and f.args[1] == 'total_seconds' and f.args[0].op == 'call':
            d = f.args[0]
            if d.args[0].op == 'ext' and d.args[0].args[0] == 'datetime.timedelta' and len(d.args) == 2 and \
                    d.args[1].op == 'kw' and d.args[1].args[0] == 'seconds' and isnum(d.args[1].args[1]):
                return d.args[1].args[1]
        t = mk('call', f, *args)
        self.ev('call', st, f=f, call=t)
        if self.tries and self.calls_raise and not (
                f.op == 'attr' and f.args[1] in STR_METHODS):
            self.may_raise(t, st)
        part = {'createVariable': 'variables', 'createDimension': 'dimensions'}.get(
            f.args[1]) if f.op == 'attr' else None
        if part is not None:
            # a netCDF4 dataset afterwards lists what was created
            ob = f.args[0]
            st.heap[(ob, '.' + part)] = mk('after', self.getattr1(ob, part, st), t)
        if f.op == 'func' and f.args[0] in self.FRESH:
            return self.new_dict(st, _intern('base', (t,)))
        return t

    # these build the dictionary they return (see the specification of property combination)
    FRESH = {'sympl._core.combine_properties.combine_properties',
             'sympl._core.combine_properties.combine_component_properties'}

    # ext functions -------------------------------------------------------------
    ALLOC = {'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty_like',
             'numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like'}

    def ext_call(self, f, args, kwargs, st):
        name = canon_ext(f.args[0])
        f = _intern('ext', (name,))
        if name in ('inspect.getfullargspec', 'inspect.getargspec') and len(args) == 1:
            if args[0].op == 'func' and args[0].args[0] in self.prog.funcs:
                return _intern('argspec', (args[0],))
            f = _intern('ext', ('inspect.getfullargspec',))
        if name in self.ALLOC:
            t = self.opaque_call(f, args, kwargs, st)
            return self.alloc('array', st, None, t)
        if name in ('copy.copy', 'copy.deepcopy') and len(args) == 1:
            ks = self.ckinds(args[0], st)
            if ks == {'dict'} or ks == {'list'}:
                return self.split(args[0], st, lambda o, s: self.copy_container(o, s))
            return mk('call', f, self.freeze(args[0], st))
        if name == 'functools.partial' and args:
            return _intern('partial', (args[0], mkseq([lit(a) for a in args[1:]])) +
                           tuple(_intern('kw', (k, v)) for k, v in kwargs.items()))
        if name == 'itertools.chain':
            s = mkseq([])
            for a in args:
                s = self.seq_join(s, self.pieces_of(a, st))
            return s
        if name == 'itertools.chain.from_iterable' and len(args) == 1:
            r = self.new_list(st)

            def body(e, s):
                s.heap[(r, '#')] = self.seq_join(s.heap[(r, '#')], self.pieces_of(e, s))
                return s
            self.loop(args[0], body, st, None)
            return r
        if name in ('collections.OrderedDict',):
            return self.builtin('dict', args, kwargs, st)
        if name in ('operator.mul', 'operator.add', 'operator.sub', 'operator.truediv') and len(args) == 2:
            return arith({'mul': 'mul', 'add': 'add', 'sub': 'sub', 'truediv': 'div'}[name.split('.')[1]],
                         args[0], args[1])
        if name == 'functools.reduce' and len(args) >= 2:
            segs = self.try_literal(args[1], st)
            if segs is not None and (segs or len(args) > 2):
                es = [s.elem for s in segs]
                acc = args[2] if len(args) > 2 else es.pop(0)
                for e in es:
                    acc = self.split(args[0], st, lambda fv, s: self.call(fv, [acc, e], {}, s))
                return acc
            acc = [args[2]] if len(args) > 2 else None
            if acc is None:
                return self.opaque_call(f, args, kwargs, st)
            nm = '<reduce@%d>' % len(self.frames)
            st.env[nm] = args[2]

            def body(e, s):
                s.env[nm] = self.split(args[0], s, lambda fv, s2: self.call(fv, [s.env[nm], e], {}, s2))
                return s
            self.loop(args[1], body, st, None)
            return st.env.pop(nm)
        return self.opaque_call(f, args, kwargs, st)

    def copy_container(self, o, st):
        k = self.ckind(o, st)
        if k == 'dict':
            return self.new_dict(st, self.unbase(self.map_content(o, st)))
        if k in ('list', 'seq'):
            return self.new_list(st, self.seq_content(o, st))
        if k == 'set':
            return self.new_set(st, self.set_content(o, st))
        return self.unknown('copy')

    # methods -------------------------------------------------------------------
    def call_method(self, ob, name, args, kwargs, st, star=False):
        if ob.op != 'item':
            return self.call_method1(ob, name, args, kwargs, st, star)
        before = st.heap.get((ob, '#'))
        r = self.call_method1(ob, name, args, kwargs, st, star)
        if st.heap.get((ob, '#')) is not before:
            self.rehome(ob, st)
        return r

    def rehome(self, ob, st):
        """The object ob = X[k] was changed: show it in the containers that hold it."""
        new = st.heap.get((ob, '#'))
        ck = self.ckind(ob, st)
        k = ob.args[1]
        if new is None or k is KEY:
            return
        if ck == 'list':
            val = map_leaves(lambda s: _intern('list', (s,)), new)
        elif ck == 'set':
            val = mkS(new)
        else:
            val = mkD(self.unbase(self.freeze_leaves(new, st, {}, 0)))
        own = any(x.op in ('mu', 'rec') for x in self.chain(ob))
        found = False
        for (o, what), content in list(st.heap.items()):
            if what != '#' or o.op != 'ref' or o is ob or self.refkind(o) != 'dict' or content is None:
                continue
            v = self.lookup(content, k)
            if not own:
                # the container goes on holding the object, whose contents are read when needed
                v = map_leaves(lambda t: self.held_before(t, k, ob), v)
            if ob in leaves(v):
                st.heap[(o, '#')] = ite(Eq(KEY, k), map_leaves(lambda t: val if t is ob and own else t, v), content)
                found = True
        if own:
            if found:
                del st.heap[(ob, '#')]
            else:
                self.note('change of an object held by a loop variable')

    mu_init = {}

    def held_before(self, t, k, ob):
        """t, or the object a container held at k before the loop when that is ob."""
        if t.op == 'item' and t.args[1] is k and t.args[0] in self.mu_init:
            init, var = self.mu_init[t.args[0]]
            if var is k:
                return map_leaves(lambda y: ob if y is ob else t, self.lookup(init, k))
        return t

    def chain(self, t):
        while True:
            yield t
            if t.op in ('item', 'pre', 'attr') and t.args and isinstance(t.args[0], T):
                t = t.args[0]
            else:
                return

    def call_method1(self, ob, name, args, kwargs, st, star=False):
        ck = self.ckind(ob, st)
        if ob.op == 'view':
            return self.view_method(ob, name, args, kwargs, st)
        ci = self.class_of(ob)
        if ci is not None or ob.op in ('module', 'class', 'super') or (ob, '.' + name) in st.heap:
            f = self.getattr1(ob, name, st)
            if f.op == 'supermeth':
                return self.super_builtin(f, args, kwargs, st)
            if f.op == 'attr' and f.args[0] is ob:
                return self.opaque_call(f, args, kwargs, st)
            return self.split(f, st, lambda fv, s: self.call(fv, args, kwargs, s, star))
        if ob.op == 'ext':
            return self.ext_call(_intern('ext', (ob.args[0] + '.' + name,)), args, kwargs, st)
        if ck is None and name in DICT_ONLY:
            ck = 'dict'
        if ck == 'dict':
            m = getattr(self, 'd_' + name, None)
            if m is not None:
                return m(ob, args, kwargs, st)
        if ck == 'list' or ck == 'seq':
            m = getattr(self, 'l_' + name, None)
            if m is not None:
                return m(ob, args, kwargs, st)
        if ck == 'set':
            m = getattr(self, 't_' + name, None)
            if m is not None:
                return m(ob, args, kwargs, st)
        if ck is None and name in ('get', 'update', 'append', 'extend', 'add') and ob.op not in ('const', 'str'):
            if name == 'get' and len(args) in (1, 2):
                return self.d_get(ob, args, kwargs, st)
            if name in ('append', 'extend'):
                return getattr(self, 'l_' + name)(ob, args, kwargs, st)
            if name == 'update':
                return self.d_update(ob, args, kwargs, st)
        if ob.op == 'builtin':
            if ob.args[0] == 'set' and name in ('union', 'intersection', 'difference'):
                first = self.builtin('set', [args[0]], {}, st) if args else self.new_set(st)
                return self.call_method(first, name, args[1:], kwargs, st)
            if ob.args[0] == 'dict' and name == 'fromkeys':
                return self.fromkeys(args, st)
            if ob.args[0] in ('dict', 'list', 'set', 'str', 'object') and args:
                return self.call_method(args[0], name, args[1:], kwargs, st)
        if name == 'format' and (isstr(ob) or kind(ob) == 'str'):
            return self.fmt(ob, args, kwargs, st)
        if isstr(ob) and name == 'join' and len(args) == 1:
            s = self.pieces_of(args[0], st)
            return lift(lambda q: self.join(ob, q), (s,))
        if isstr(ob) and name in ('lower', 'upper', 'strip', 'title') and not args:
            return const(getattr(ob.args[1], name)())
        if name in ('lower', 'upper', 'strip') and not args and not kwargs and ob.op == 'call' and \
                len(ob.args) == 1 and ob.args[0].op == 'attr' and ob.args[0].args[1] == name:
            return ob               # once is enough
        if isstr(ob) and name == 'replace' and all(isstr(a) for a in args):
            return const(ob.args[1].replace(*[a.args[1] for a in args]))
        if name == '__getitem__' and len(args) == 1:
            return self.getitem(ob, args[0], st)
        if name == '__setitem__' and len(args) == 2:
            self.setitem(ob, args[0], args[1], st)
            return NONE
        if name == '__contains__' and len(args) == 1:
            return self.contains(args[0], ob, st)
        if name in ('__call__',) :
            return self.call(ob, args, kwargs, st, star)
        if name in MUTATORS and ob.op not in ('const',):
            self.mutate_event('method', ob, st, name=name)
        if any(k == 'out' for k in kwargs):
            self.mutate_event('out', kwargs['out'], st)
        f = _intern('attr', (self.freeze(ob, st), name))
        return self.opaque_call(f, args, kwargs, st)

    def super_builtin(self, f, args, kwargs, st):
        obj, name = f.args
        if name in ('__init__', '__init_subclass__'):
            return NONE
        t = _intern('attr', (_intern('superof', (obj,)), name))
        fz = [self.freeze(v, st) for v in args]
        kws = [mk('kw', k, self.freeze(v, st)) for k, v in sorted(kwargs.items())]
        return self.finish_call(t, fz + kws, st)

    def fmt(self, ob, args, kwargs, st):
        if not isstr(ob):
            return mk('call', _intern('attr', (ob, 'format')), *[self.freeze(a, st) for a in args])
        s = ob.args[1]
        ps, i, auto = [], 0, 0
        import string
        try:
            for text, field, spec, conv in string.Formatter().parse(s):
                if text:
                    ps.append(const(text))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    raise ValueError
                x = self.strval(v, st)
                if conv == 'r':
                    x = mk('repr', x)
                if spec:
                    x = mk('fmt', x, const(spec))
                ps.append(x)
        except (ValueError, IndexError):
            return mk('call', _intern('attr', (ob, 'format')), *[self.freeze(a, st) for a in args])
        return mkstr(ps)

    def join(self, sep, q):
        if q.op == 'seq' and all(p.op == 'lit' for p in q.args):
            ps = []
            for i, p in enumerate(q.args):
                if i:
                    ps.append(sep)
                ps.append(p.args[0])
            return mkstr(ps)
        return _intern('join', (sep, q))

    def view_method(self, ob, name, args, kwargs, st):
        k, o = ob.args
        if name in ('intersection', 'union', 'difference', 'isdisjoint'):
            s = self.new_set(st, self.as_pred(ob, st))
            return self.call_method(s, name, args, kwargs, st)
        return self.opaque_call(_intern('attr', (self.freeze(ob, st), name)), args, kwargs, st)

    # dict
    def d_keys(self, o, a, k, st):
        return _intern('view', ('keys', o))

    def d_values(self, o, a, k, st):
        return _intern('view', ('values', o))

    def d_items(self, o, a, k, st):
        return _intern('view', ('items', o))

    d_iteritems, d_iterkeys, d_itervalues = d_items, d_keys, d_values

    def d_copy(self, o, a, k, st):
        return self.copy_container(o, st)

    def d_get(self, o, a, k, st):
        key = self.freeze(a[0], st)
        dv = a[1] if len(a) > 1 else k.get('default', NONE)
        c = self.map_content(o, st)
        v = self.lookup(c, key)
        if (o, '#') in st.heap and any(l.op in ('D', 'list', 'S') for l in leaves(v)):
            v = self.thaw(v, st)
            st.heap[(o, '#')] = ite(Eq(KEY, key), v, c)
        return map_leaves(lambda t: dv if t is ABSENT else t, self.prune(v, st))

    def d_setdefault(self, o, a, k, st):
        key = self.freeze(a[0], st)
        dv = a[1] if len(a) > 1 else NONE
        c = self.map_content(o, st)
        v = self.lookup(c, key)
        missing = map_leaves(lambda t: TRUE if t is ABSENT else FALSE, v)
        if any(l.op in ('D', 'list', 'S') for l in leaves(v)):
            v = self.thaw(v, st)            # what is there is given out as it is held
            c = ite(Eq(KEY, key), v, c)
        v = map_leaves(lambda t: dv if t is ABSENT else t, v)
        self.mutate_event('setdefault', o, st, key=key, value=dv)
        st.heap[(o, '#')] = ite(missing, ite(Eq(KEY, key), dv, c), c)
        return v

    def d_update(self, o, a, k, st):
        c = self.unbase_keep(self.map_content(o, st))
        vals = list(a)
        for x in vals:
            self.mutate_event('update', o, st, value=x)
            c = self.update_content(c, x, st)
        if k:
            self.mutate_event('update', o, st)
            for kk, v in k.items():
                c = ite(Eq(KEY, const(kk)), v, c) if kk != '**' else self.overlay(c, v, st)
        st.heap[(o, '#')] = c
        return NONE

    def unbase_keep(self, c):
        return c

    def update_content(self, c, x, st):
        ks = self.ckinds(x, st)
        if ks <= {'list', 'seq'} or any(l.op in ('zip', 'view', 'items') for l in leaves(x)):
            pr = self.pairs(x, st)
            return map_leaves(lambda t: c if t is ABSENT else t, pr)

        def f(ob):
            mc = self.unbase(self.map_content(ob, st))
            return map_leaves(lambda t: c if t is ABSENT else t, mc)
        return lift(f, (x,))

    def pairs(self, x, st):
        """dict(content) built from an iterable of pairs."""
        tmp = self.new_dict(st)

        def body(e, s):
            kk = self.getitem(self.seqview(e, s), const(0), s)
            vv = self.getitem(self.seqview(e, s), const(1), s)
            s.heap[(tmp, '#')] = ite(Eq(KEY, self.freeze(kk, s)), vv, s.heap[(tmp, '#')])
            return s
        self.loop(x, body, st, None)
        return st.heap[(tmp, '#')]

    def fromkeys(self, a, st):
        tmp = self.new_dict(st)
        dv = a[1] if len(a) > 1 else NONE

        def body(e, s):
            s.heap[(tmp, '#')] = ite(Eq(KEY, self.freeze(e, s)), dv, s.heap[(tmp, '#')])
            return s
        self.loop(a[0], body, st, None)
        return tmp

    def d_pop(self, o, a, k, st):
        key = self.freeze(a[0], st)
        c = self.map_content(o, st)
        self.mutate_event('pop', o, st, key=key)
        v = self.lookup(c, key)
        st.heap[(o, '#')] = ite(Eq(KEY, key), ABSENT, c)
        if len(a) > 1:
            return map_leaves(lambda t: a[1] if t is ABSENT else t, v)
        v = self.prune(v, st)
        if v is ABSENT:
            self.raise_('KeyError', st)
            raise Dead()
        if self.tries and self.catching('KeyError'):
            self.may_raise(None, st, 'KeyError', Not(present(v)))
        v = map_leaves(lambda t: err('KeyError') if t is ABSENT else t, v)
        if err('KeyError') in leaves(v):
            v = self.prune_err(v)
        return v

    def d_popitem(self, o, a, k, st):
        self.mutate_event('popitem', o, st)
        st.heap[(o, '#')] = unk('popitem')
        return self.unknown('popitem')

    def d_clear(self, o, a, k, st):
        self.mutate_event('clear', o, st)
        st.heap[(o, '#')] = ABSENT
        return NONE

    # list
    def l_append(self, o, a, k, st):
        self.mutate_event('append', o, st, value=a[0])
        st.heap[(o, '#')] = lift(lambda q: mkseq(list(q.args) + [lit(a[0])]), (self.seq_content(o, st),))
        return NONE

    def l_extend(self, o, a, k, st):
        self.mutate_event('extend', o, st, value=a[0])
        st.heap[(o, '#')] = self.seq_join(self.seq_content(o, st), self.pieces_raw(a[0], st))
        return NONE

    def pieces_raw(self, v, st):
        def f(ob):
            k = self.ckind(ob, st)
            if k in ('list', 'seq'):
                return self.seq_content(ob, st)
            return self.pieces_of(ob, st)
        return lift(f, (v,))

    def l_insert(self, o, a, k, st):
        self.mutate_event('insert', o, st, value=a[1])
        i = self.freeze(a[0], st)

        def f(s, ii):
            if isconst(ii, 0):
                return mkseq([lit(a[1])] + list(s.args))
            if all(p.op == 'lit' for p in s.args) and isnum(ii):
                ps = list(s.args)
                ps.insert(cval(ii), lit(a[1]))
                return mkseq(ps)
            b = mkseq_value(s)
            return mkseq([spread(item(b, mk('slice', NONE, ii, NONE))), lit(a[1]),
                          spread(item(b, mk('slice', ii, NONE, NONE)))])
        st.heap[(o, '#')] = lift(f, (self.seq_content(o, st), i))
        return NONE

    def l_pop(self, o, a, k, st):
        self.mutate_event('pop', o, st)
        i = self.freeze(a[0], st) if a else const(-1)
        c = self.seq_content(o, st)
        r = lift(lambda s, ii: item(mkseq_value(s), ii), (c, i))

        def f(s, ii):
            n = cval(ii) if isnum(ii) else None
            ps = list(s.args)
            if n == -1 and ps and ps[-1].op == 'lit':
                return mkseq(ps[:-1])
            if n == 0 and ps and ps[0].op == 'lit':
                return mkseq(ps[1:])
            b = mkseq_value(s)
            if n == 0:
                return mkseq([spread(item(b, mk('slice', const(1), NONE, NONE)))])
            if n == -1:
                return mkseq([spread(item(b, mk('slice', NONE, const(-1), NONE)))])
            return mkseq([spread(_intern('delidx', (b, ii)))])
        st.heap[(o, '#')] = lift(f, (c, i))
        return r

    def l_remove(self, o, a, k, st):
        self.mutate_event('remove', o, st, value=a[0])
        x = self.freeze(a[0], st)
        st.heap[(o, '#')] = lift(lambda s: self.seq_without(s, x, st), (self.seq_content(o, st),))
        return NONE

    def seq_without(self, s, x, st):
        out = []
        for sgm in self.iter_seq(s, st):
            if sgm.var is None:
                c = Eq(sgm.elem, x)
                if c is TRUE:
                    continue
                if c is FALSE:
                    out.append(lit(sgm.elem))
                else:
                    v = fresh_var('u')
                    out.extend(mkeach(NONE, v, And(Eq(v, const(0)), Not(c)), mkseq([lit(sgm.elem)])))
            else:
                out.extend(mkeach(sgm.src, sgm.var, And(sgm.dom, Not(Eq(sgm.elem, x))), mkseq([lit(sgm.elem)])))
        return mkseq(out)

    def l_index(self, o, a, k, st):
        r = mk('index', self.freeze(o, st), self.freeze(a[0], st))
        r = map_leaves(norm_index, r)
        if self.tries and self.catching('ValueError'):
            self.may_raise(r, st, 'ValueError', Not(self.contains(self.freeze(a[0], st), o, st)))
        return r

    def l_copy(self, o, a, k, st):
        return self.copy_container(o, st)

    def l_clear(self, o, a, k, st):
        self.mutate_event('clear', o, st)
        st.heap[(o, '#')] = mkseq([])
        return NONE

    def l_sort(self, o, a, k, st):
        self.mutate_event('sort', o, st)
        st.heap[(o, '#')] = mkseq([spread(mk('sortedof', self.freeze(o, st)))])
        return NONE

    def l_reverse(self, o, a, k, st):
        self.mutate_event('reverse', o, st)
        st.heap[(o, '#')] = mkseq([spread(mk('reversed', self.freeze(o, st)))])
        return NONE

    def l_count(self, o, a, k, st):
        return mk('count', self.freeze(o, st), self.freeze(a[0], st))

    # set
    def t_add(self, o, a, k, st):
        self.mutate_event('add', o, st, value=a[0])
        st.heap[(o, '#')] = Or(self.set_content(o, st), Eq(KEY, self.freeze(a[0], st)))
        return NONE

    def t_discard(self, o, a, k, st):
        self.mutate_event('discard', o, st, value=a[0])
        st.heap[(o, '#')] = And(self.set_content(o, st), Not(Eq(KEY, self.freeze(a[0], st))))
        return NONE

    t_remove = t_discard

    def t_update(self, o, a, k, st):
        c = self.set_content(o, st)
        for x in a:
            self.mutate_event('update', o, st, value=x)
            c = Or(c, self.as_pred(x, st))
        st.heap[(o, '#')] = c
        return NONE

    def t_union(self, o, a, k, st):
        c = self.set_content(o, st)
        for x in a:
            c = Or(c, self.as_pred(x, st))
        return self.new_set(st, c)

    def t_intersection(self, o, a, k, st):
        c = self.set_content(o, st)
        for x in a:
            c = And(c, self.as_pred(x, st))
        return self.new_set(st, c)

    def t_difference(self, o, a, k, st):
        c = self.set_content(o, st)
        for x in a:
            c = And(c, Not(self.as_pred(x, st)))
        return self.new_set(st, c)

    def t_symmetric_difference(self, o, a, k, st):
        return self.setop(ast.BitXor(), o, self.new_set(st, self.as_pred(a[0], st)), st)

    def t_difference_update(self, o, a, k, st):
        r = self.t_difference(o, a, k, st)
        self.mutate_event('update', o, st)
        st.heap[(o, '#')] = st.heap[(r, '#')]
        return NONE

    def t_intersection_update(self, o, a, k, st):
        r = self.t_intersection(o, a, k, st)
        self.mutate_event('update', o, st)
        st.heap[(o, '#')] = st.heap[(r, '#')]
        return NONE

    def t_issubset(self, o, a, k, st):
        v = fresh_var('k')
        x = as_cond(subst(self.set_content(o, st), {KEY: v}))
        y = as_cond(subst(self.as_pred(a[0], st), {KEY: v}))
        return Not(some(v, And(x, Not(y))))

    def t_issuperset(self, o, a, k, st):
        v = fresh_var('k')
        x = as_cond(subst(self.set_content(o, st), {KEY: v}))
        y = as_cond(subst(self.as_pred(a[0], st), {KEY: v}))
        return Not(some(v, And(y, Not(x))))

    def t_isdisjoint(self, o, a, k, st):
        v = fresh_var('k')
        x = as_cond(subst(self.set_content(o, st), {KEY: v}))
        y = as_cond(subst(self.as_pred(a[0], st), {KEY: v}))
        return Not(some(v, And(y, x)))

    def t_copy(self, o, a, k, st):
        return self.copy_container(o, st)

    def t_clear(self, o, a, k, st):
        self.mutate_event('clear', o, st)
        st.heap[(o, '#')] = FALSE
        return NONE

    def t_pop(self, o, a, k, st):
        self.mutate_event('pop', o, st)
        st.heap[(o, '#')] = unk('set pop')
        return self.unknown('set pop')

    # ------------------------------------------------------------------ builtins
    def builtin(self, name, args, kwargs, st):
        m = getattr(self, 'b_' + name, None)
        if m is not None:
            return m(args, kwargs, st)
        if name.endswith(('Error', 'Exception', 'Warning')):
            return _intern('exc', (name,))
        return self.opaque_call(_intern('builtin', (name,)), args, kwargs, st)

    def b_len(self, a, k, st):
        def f(o):
            if o.op == 'view':
                return lift(f, (o.args[1],))
            ck = self.ckind(o, st)
            if ck in ('list', 'seq'):
                return lift(lambda s: Len(mkseq_value(s)), (self.freeze_seq(self.seq_content(o, st), st),))
            return Len(self.freeze(o, st))
        return lift(f, (a[0],))

    def b_range(self, a, k, st):
        a = [self.freeze(x, st) for x in a]
        if len(a) == 1:
            return mk('range', const(0), a[0], const(1))
        if len(a) == 2:
            return mk('range', a[0], a[1], const(1))
        return mk('range', *a)

    def b_enumerate(self, a, k, st):
        start = a[1] if len(a) > 1 else k.get('start', const(0))
        return mk('enumerate', self.seqish(a[0], st), start)

    def seqish(self, v, st):
        return lift(lambda o: self.freeze(o, st) if o.op != 'view' else self.pieces_of(o, st), (v,))

    def b_zip(self, a, k, st):
        if not a:
            return mkseq([])
        if len(a) == 1 and a[0].op == 'star':
            return mk('unzip', self.freeze(a[0].args[0], st))
        return mk('zip', *[self.seqish(x, st) for x in a])

    def b_sorted(self, a, k, st):
        x = lift(lambda o: self.pieces_of(o, st) if o.op == 'view' and o.args[0] != 'keys' else
                 (self.freeze(o.args[1], st) if o.op == 'view' else self.freeze(o, st)), (a[0],))
        extra = [mk('kw', kk, self.freeze(v, st)) for kk, v in sorted(k.items())]
        return self.new_list(st, mkseq([spread(mk('sortedof', x, *extra))]))

    def b_reversed(self, a, k, st):
        return mk('reversed', self.seqish(a[0], st))

    def b_list(self, a, k, st):
        if not a:
            return self.new_list(st)
        return self.new_list(st, self.pieces_raw(a[0], st))

    def b_tuple(self, a, k, st):
        if not a:
            return mkseq([])
        r = self.pieces_of(a[0], st)
        return map_leaves(lambda s: s.args[0].args[0] if len(s.args) == 1 and s.args[0].op == 'spread'
                          and kind(s.args[0].args[0]) == 'seq' else s, r)

    def b_dict(self, a, k, st):
        r = self.new_dict(st)
        if a:
            self.d_update_q(r, a, st)
        for kk, v in k.items():
            if kk == '**':
                st.heap[(r, '#')] = self.overlay(st.heap[(r, '#')], v, st)
            else:
                st.heap[(r, '#')] = ite(Eq(KEY, const(kk)), v, st.heap[(r, '#')])
        return r

    def d_update_q(self, r, a, st):
        st.heap[(r, '#')] = self.update_content(st.heap[(r, '#')], a[0], st)

    def b_set(self, a, k, st):
        if not a:
            return self.new_set(st)
        return self.new_set(st, self.as_pred(a[0], st))

    b_frozenset = b_set

    def b_any(self, a, k, st):
        s = self.pieces_of(a[0], st)
        return lift(lambda q: self.any_of(q, False), (s,))

    def b_all(self, a, k, st):
        s = self.pieces_of(a[0], st)
        return Not(lift(lambda q: self.any_of(q, True), (s,)))

    def any_of(self, q, neg):
        r = FALSE
        for p in q.args:
            if p.op == 'lit':
                c = truth(p.args[0])
                r = Or(r, Not(c) if neg else c)
            elif p.op == 'each':
                v = fresh_var('k')
                inner = lift(lambda z: self.any_of(z, neg), (app(p.args[2], v),))
                r = Or(r, some(v, And(as_cond(app(p.args[1], v)), inner)))
            else:
                v = fresh_var('k')
                c = truth(v)
                r = Or(r, some(v, And(In(v, p.args[0]), Not(c) if neg else c)))
        return r

    def b_min(self, a, k, st, nm='min'):
        if len(a) == 1:
            a = [self.pieces_of(a[0], st)]
            if a[0].op == 'seq' and a[0].args and all(p.op == 'lit' for p in a[0].args) and not k:
                a = [p.args[0] for p in a[0].args]
        a = [self.freeze(x, st) for x in a]
        kws = [mk('kw', kk, self.freeze(v, st)) for kk, v in sorted(k.items())]
        if len(a) > 1:
            if all(isnum(x) for x in a):
                return const(min(map(cval, a)) if nm == 'min' else max(map(cval, a)))
            a = sorted(a, key=lambda t: t.id) if all(x.op != 'phi' for x in a) else a
        return mk(nm, *(a + kws))

    def b_max(self, a, k, st):
        return self.b_min(a, k, st, 'max')

    def b_sum(self, a, k, st):
        init = a[1] if len(a) > 1 else k.get('start', const(0))
        segs = self.try_literal(a[0], st) if a[0].op != 'phi' else None
        if segs is not None:
            acc = init
            for s in segs:
                acc = s.elem if isconst(acc, 0) else arith('add', acc, s.elem)
            return acc
        s = self.pieces_of(a[0], st)
        return lift(lambda q: _intern('sum', ('add', q, init)), (s,))

    def b_abs(self, a, k, st):
        return mk('abs', self.freeze(a[0], st))

    def b_str(self, a, k, st):
        if not a:
            return const('')
        x = self.freeze(a[0], st)
        return lift(lambda y: y if kind(y) == 'str' else _intern('str', (y,)), (x,))

    def b_repr(self, a, k, st):
        return mk('repr', self.freeze(a[0], st))

    def b_float(self, a, k, st):
        def f(x):
            if isnum(x):
                return const(float(cval(x)))
            return _intern('float', (x,))
        if not a:
            return const(0.0)
        return lift(f, (self.freeze(a[0], st),))

    def b_int(self, a, k, st):
        return lift(lambda x: const(int(cval(x))) if isnum(x) else _intern('int', (x,)),
                    (self.freeze(a[0], st),)) if a else const(0)

    def b_bool(self, a, k, st):
        return truth_of(self, a[0], st) if a else FALSE

    def b_isinstance(self, a, k, st):
        return self.split(a[0], st, lambda o, s: self.isinst(o, a[1], s))

    BUILTIN_OF = {'dict': 'dict', 'list': 'list', 'set': 'set', 'seq': 'tuple'}

    def isinst(self, o, types, st):
        r = FALSE
        ts = self.pieces_of(types, st) if types.op in ('seq', 'ref', 'list') else mkseq([lit(types)])
        if ts.op != 'seq':
            return mk('isinst', self.freeze(o, st), types)
        for p in ts.args:
            if p.op != 'lit':
                r = Or(r, mk('isinst', self.freeze(o, st), p.args[0]))
                continue
            r = Or(r, lift(lambda t: self.isinst1(o, t, st), (p.args[0],)))
        return r

    def isinst1(self, o, t, st):
        ci = self.class_of(o)
        if ci is not None and t.op == 'class':
            if any(c.qual == t.args[0] for c in ci.mro()):
                return TRUE
            if o.op == 'ref' or ci.qual.startswith('spec.'):
                return FALSE
        if ci is not None and t.op == 'builtin' and t.args[0] != 'object' and not ci.external_bases():
            return FALSE
        if t.op == 'builtin' and o.op == 'func' and t.args[0] in ('property', 'staticmethod', 'classmethod'):
            fi = self.prog.funcs.get(o.args[0])
            if fi is not None:
                return const(t.args[0] == 'property' and fi.kind in ('property', 'abstractproperty'))
        if t.op == 'builtin':
            tn = t.args[0]
            if o.op == 'const':
                k = {'str': str, 'int': int, 'float': float, 'bool': bool}.get(o.args[0])
                b = getattr(builtins, tn, None)
                if k is not None and isinstance(b, type):
                    return const(issubclass(k, b))
                if o is NONE:
                    return FALSE
            if o.op == 'ref' or o.op in ('D', 'list', 'S', 'seq'):
                ck = self.ckind(o, st)
                if ck in self.BUILTIN_OF:
                    return const(self.BUILTIN_OF[ck] == tn or tn == 'object')
                if ck == 'inst':
                    return FALSE
            if o.op == 'str':
                return const(tn == 'str')
        return mk('isinst', self.freeze(o, st), t)

    def b_issubclass(self, a, k, st):
        return mk('issub', self.freeze(a[0], st), self.freeze(a[1], st))

    def b_hasattr(self, a, k, st):
        def f(o, s):
            nm = a[1]
            if isstr(nm):
                n = nm.args[1]
                if (o, '.' + n) in s.heap:
                    v = s.heap[(o, '.' + n)]
                    return map_leaves(lambda t: FALSE if t is UNDEF else TRUE, v)
                if o.op == 'class' and o.args[0] in self.prog.classes:
                    oc = self.prog.classes[o.args[0]]
                    if n == '__call__' or oc.find(n)[1] is not None:
                        return TRUE
                    if not [b for b in oc.external_bases() if not b.startswith('abc.')]:
                        mc = oc.metaclass(self.prog)
                        return const(mc is not None and mc.find(n)[1] is not None)
                ci = self.class_of(o)
                if ci is not None:
                    c, mem = ci.find(n)
                    if mem is not None:
                        return TRUE
                    if o.op == 'ref' and ci.find('__getattr__')[1] is None and \
                            not self.attr_ever_set(ci, n):
                        return FALSE
                    if self.lacks(o, n):
                        return FALSE
            return mk('hasattr', self.freeze(o, s) if o.op != 'ref' else o, nm)
        return self.split(a[0], st, f)

    def b_getattr(self, a, k, st):
        def f(nm, s):
            if not isstr(nm):
                return mk('getattr', self.freeze(a[0], s), nm)
            n = nm.args[1]
            if len(a) == 3:
                h = self.b_hasattr([a[0], nm], {}, s)
                h = self.prune(h, s)
                if h is FALSE:
                    return a[2]
                v = self.getattr(a[0], n, s)
                return ite(h, v, a[2])
            return self.getattr(a[0], n, s)
        return self.split(a[1], st, f)

    def b_setattr(self, a, k, st):
        def f(nm, s):
            if isstr(nm):
                self.setattr(a[0], nm.args[1], a[2], s)
            else:
                self.mutate_event('setattr', a[0], s, key=nm, value=a[2])
            return NONE
        return self.split(a[1], st, f)

    def b_type(self, a, k, st):
        if len(a) == 1:
            return self.getattr(a[0], '__class__', st)
        return self.unknown('type()')

    def b_callable(self, a, k, st):
        return mk('hasattr', self.freeze(a[0], st), const('__call__'))

    def b_map(self, a, k, st):
        if len(a) != 2:
            return self.unknown('map')
        r = self.new_list(st)

        def body(e, s):
            v = self.split(a[0], s, lambda fv, s2: self.call(fv, [e], {}, s2))
            s.heap[(r, '#')] = lift(lambda q: mkseq(list(q.args) + [lit(v)]), (s.heap[(r, '#')],))
            return s
        self.loop(a[1], body, st, None)
        return r

    def b_filter(self, a, k, st):
        r = self.new_list(st)

        def body(e, s):
            v = e if a[0] is NONE else self.split(a[0], s, lambda fv, s2: self.call(fv, [e], {}, s2))
            c = truth_of(self, v, s)
            q0 = s.heap[(r, '#')]
            s.heap[(r, '#')] = ite(c, lift(lambda q: mkseq(list(q.args) + [lit(e)]), (q0,)), q0)
            return s
        self.loop(a[1], body, st, None)
        return r

    def b_iter(self, a, k, st):
        return a[0]

    def b_next(self, a, k, st):
        s = self.pieces_of(a[0], st)

        def f(q):
            ps = list(q.args)
            if not ps:
                return a[1] if len(a) > 1 else err('StopIteration')
            p = ps[0]
            if p.op == 'lit':
                return p.args[0]
            if p.op == 'each':
                v = fresh_var('k')
                c = as_cond(app(p.args[1], v))
                inner = app(p.args[2], v)
                if inner.op == 'seq' and len(inner.args) == 1 and inner.args[0].op == 'lit':
                    val = pick('first', v, c, inner.args[0].args[0])
                    rest = f(mkseq(ps[1:])) if len(ps) > 1 or len(a) > 1 else err('StopIteration')
                    if rest is err('StopIteration'):
                        return val
                    return ite(some(v, c), val, rest)
            if p.op == 'spread' and len(a) == 1:
                return item(p.args[0], const(0))
            return unk('next')
        return lift(f, (s,))

    def b_slice(self, a, k, st):
        a = [self.freeze(x, st) for x in a]
        if len(a) == 1:
            return mk('slice', NONE, a[0], NONE)
        if len(a) == 2:
            return mk('slice', a[0], a[1], NONE)
        return mk('slice', *a)

    def b_print(self, a, k, st):
        return NONE

    def b_id(self, a, k, st):
        return mk('idof', a[0])

    def b_round(self, a, k, st):
        return mk('round', *[self.freeze(x, st) for x in a])

    def b_super(self, a, k, st):
        return self.unknown('super')

    def b_vars(self, a, k, st):
        return mk('attr', a[0], '__dict__')


# ------------------------------------------------------------------- helpers
def mkD(content, KEY=KEY):
    """Frozen mapping from a content diagram over KEY."""
    # eta: {k: x[k] for k in x} is x
    if content.op == 'phi' and content.args[2] is ABSENT and content.args[1].op == 'item':
        it = content.args[1]
        at_ = content.args[0]
        if it.args[1] is KEY and at_.op == 'in' and at_.args[0] is KEY and at_.args[1] is it.args[0] \
                and KEY not in it.args[0].fv:
            return it.args[0]
    return _intern('D', (lam(KEY, content),))


def _rb_D(l):
    v = fresh_var()
    c = open_lam(l, v)
    return mkD(c, v)


REBUILD['D'] = _rb_D


def mkS(content, KEY=KEY):
    if content.op == 'phi' and content.args[1] is TRUE and content.args[2] is FALSE:
        at_ = content.args[0]
        if at_.op == 'in' and at_.args[0] is KEY and KEY not in at_.args[1].fv and \
                kind(at_.args[1]).split(':')[0] == 'set':
            return at_.args[1]
    return _intern('S', (lam(KEY, content),))


REBUILD['S'] = lambda l: (lambda v: mkS(as_cond(open_lam(l, v)), v))(fresh_var())


def mkseq_value(s):
    """A sequence content used as a value: unwrap a lone spread."""
    if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'spread':
        return s.args[0].args[0]
    return s


def norm_index(t):
    if t.op == 'index':
        s = t.args[0]
        if s.op == 'list':
            s = s.args[0]
        s = mkseq_value(s)
        if s.op == 'seq' and t.args[1].op == 'const':
            for i, p in enumerate(s.args):
                if p.op != 'lit' or p.args[0].op != 'const':
                    break
                if p.args[0] is t.args[1]:
                    return const(i)
        return _intern('index', (s, t.args[1]))
    return t


def finite_keys(content):
    """Keys of a content diagram with finite constant support, else None."""
    keys = []

    def go(t):
        if t.op == 'phi':
            a = t.args[0]
            if a.op == 'eq' and KEY in a.args:
                other = a.args[0] if a.args[1] is KEY else a.args[1]
                if other.op == 'const':
                    hi = t.args[1]
                    if hi is ABSENT:
                        pass
                    elif ABSENT in leaves(hi):
                        return False
                    else:
                        keys.append(other)
                    return go(t.args[2])
            return False
        return t is ABSENT
    if go(content):
        return sorted(keys, key=lambda k: str(k.args))
    return None


def restrict_in(u, m):
    """u == In(KEY, m) or w  ->  w"""
    w = u
    for a in atoms_of(u):
        if a.op == 'in' and a.args[1] is m:
            w = restrict(w, a, False)
    for a in atoms_of(w):
        if a.op == 'in' and a.args[1] is m:
            w = restrict(w, a, False)
    if m in w.fv:
        return None
    return w if Or(In(KEY, m), w) is u else None


def truth_of(ip, v, st):
    """Truth value of a value, looking at container contents."""
    def f(o):
        if o.op == 'view':
            return lift(f, (o.args[1],))
        ck = ip.ckind(o, st) if o.op not in ('const',) else None
        if ck == 'dict':
            k = fresh_var('k')
            return some(k, present(ip.lookup(ip.map_content(o, st), k)))
        if ck == 'set':
            k = fresh_var('k')
            return some(k, as_cond(subst(ip.set_content(o, st), {KEY: k})))
        if ck in ('list', 'seq'):
            return lift(lambda s: nonempty(mkseq_value(s)), (ip.freeze_seq(ip.seq_content(o, st), st),))
        return truth(o)
    return lift(f, (v,))


EXT_ALIAS = {'numpy': 'numpy', 'np': 'numpy'}


def canon_ext(name):
    return name


def walk_own(fn):
    """Nodes of a function body excluding nested functions."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)
