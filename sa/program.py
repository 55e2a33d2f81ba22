"""Resolved program: modules, classes, functions, imports, module data."""
import ast
import os


class FuncInfo(object):
    def __init__(self, qual, node, module, cls=None, env=None, kind='func'):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.env = env          # captured environment of a nested function
        self.kind = kind        # func, property, static, classm, abstract, abstractproperty

    def __repr__(self):
        return '<%s>' % self.qual


class ClassInfo(object):
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.members = {}       # name -> FuncInfo | ('data', expr)
        self.setters = {}
        self.bases = []         # ClassInfo or external name
        self._mro = None

    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def external_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, str) and b not in ('object',):
                    out.append(b)
        return out

    def metaclass(self, prog):
        for c in self.mro():
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'add_metaclass' and d.args:
                    r = prog.resolve_expr(c.module, d.args[0])
                    if isinstance(r, ClassInfo):
                        return r
            for k in c.node.keywords:
                if k.arg == 'metaclass':
                    r = prog.resolve_expr(c.module, k.value)
                    if isinstance(r, ClassInfo):
                        return r
        return None

    def find(self, name, after=None):
        skip = after is not None
        for c in self.mro():
            if skip:
                if c is after:
                    skip = False
                continue
            if name in c.members:
                return c, c.members[name]
        return None, None

    def __repr__(self):
        return '<class %s>' % self.qual


def c3(cls):
    seqs = []
    for b in cls.bases:
        if isinstance(b, ClassInfo):
            seqs.append(list(b.mro()))
    seqs.append([b for b in cls.bases if isinstance(b, ClassInfo)])
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise TypeError('inconsistent MRO for ' + cls.qual)
        out.append(cand)
        for s in seqs:
            if s[0] is cand:
                del s[0]


MUTATORS = {'append', 'extend', 'update', 'add', 'pop', 'popitem', 'remove', 'insert',
            'clear', 'setdefault', 'discard', 'sort', 'reverse', '__setitem__',
            '__delitem__', 'difference_update', 'intersection_update', 'appendleft',
            'popleft', 'symmetric_difference_update', 'fill', 'put', 'itemset'}


class Module(object):
    def __init__(self, name, path, tree, source, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.is_pkg = is_pkg
        self.bindings = {}      # name -> ('func',FuncInfo)|('class',ClassInfo)|('import',...)|('data',expr)
        self.mutable_globals = set()


class Program(object):
    def __init__(self):
        self.modules = {}
        self.classes = {}
        self.funcs = {}

    def load_package(self, root, pkg):
        base = os.path.join(root, pkg)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-len('.__init__')]
                self.load_file(path, rel, is_pkg)
        self.link()

    def load_file(self, path, name, is_pkg=False):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree, src, is_pkg)
        self.modules[name] = m
        self._bind(m, tree.body)
        self._scan_globals(m)
        return m

    # -- binding -----------------------------------------------------------
    def _bind(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = m.name + '.' + st.name
                fi = FuncInfo(q, st, m)
                if st.name in m.bindings and m.bindings[st.name][0] == 'import':
                    continue
                m.bindings[st.name] = ('func', fi)
                self.funcs[q] = fi
            elif isinstance(st, ast.ClassDef):
                ci = self._class(m, st, m.name + '.' + st.name)
                m.bindings[st.name] = ('class', ci)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.bindings[a.asname] = ('module', a.name)
                    else:
                        m.bindings[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                src = self._abs(m, st)
                for a in st.names:
                    if a.name == '*':
                        continue
                    m.bindings[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._bind_target(m, t, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._bind_target(m, st.target, st.value)
            elif isinstance(st, ast.Try):
                self._bind(m, st.body)
                for h in st.handlers:
                    saved = dict(m.bindings)
                    self._bind(m, h.body)
                    for k, v in saved.items():   # the try body wins
                        m.bindings[k] = v
                self._bind(m, st.orelse)
                self._bind(m, st.finalbody)
            elif isinstance(st, ast.If):
                self._bind(m, st.orelse)
                self._bind(m, st.body)

    def _bind_target(self, m, t, value):
        if isinstance(t, ast.Name):
            if isinstance(value, ast.Constant) and value.value is None and \
                    m.bindings.get(t.id, ('',))[0] in ('module', 'from'):
                return                          # optional dependency: analysed as installed
            if t.id in m.bindings and m.bindings[t.id][0] == 'data':
                m.mutable_globals.add(t.id)     # rebound: treat as variable
            m.bindings[t.id] = ('data', value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    self._bind_target(m, a, b)
            else:
                for i, a in enumerate(t.elts):
                    sub = ast.Subscript(value=value, slice=ast.Constant(value=i), ctx=ast.Load())
                    ast.copy_location(sub, value)
                    ast.fix_missing_locations(sub)
                    self._bind_target(m, a, sub)

    def _abs(self, m, st):
        if not st.level:
            return st.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        up = st.level - 1
        if up:
            parts = parts[:-up]
        return '.'.join(parts + ([st.module] if st.module else []))

    def _class(self, m, node, qual):
        ci = ClassInfo(qual, node, m)
        self.classes[qual] = ci
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'func'
                setter = False
                for d in st.decorator_list:
                    dn = ast.unparse(d)
                    last = dn.split('.')[-1].split('(')[0]
                    if last == 'abstractproperty':
                        kind = 'abstractproperty'
                    elif last == 'abstractmethod':
                        kind = 'abstractproperty' if kind == 'property' else 'abstract'
                    elif last in ('property', 'cached_property'):
                        kind = 'abstractproperty' if kind == 'abstract' else 'property'
                    elif last == 'staticmethod':
                        kind = 'static'
                    elif last == 'classmethod':
                        kind = 'classm'
                    elif last in ('setter', 'deleter'):
                        setter = True
                fi = FuncInfo(qual + '.' + st.name, st, m, ci, kind=kind)
                if setter:
                    ci.setters[st.name] = fi
                    continue
                ci.members[st.name] = fi
                if st.name.startswith('__') and not st.name.endswith('__'):
                    ci.members['_%s%s' % (node.name.lstrip('_'), st.name)] = fi
                self.funcs[fi.qual] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.members[t.id] = ('data', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                ci.members[st.target.id] = ('data', st.value)
        return ci

    def _scan_globals(self, m):
        names = {n for n, b in m.bindings.items() if b[0] == 'data'}
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.Global):
                m.mutable_globals.update(fn.names)
        for node in ast.walk(m.tree):
            tgt = None
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                    node.func.attr in MUTATORS:
                tgt = node.func.value
            elif isinstance(node, (ast.Subscript,)) and isinstance(node.ctx, (ast.Store, ast.Del)):
                tgt = node.value
            while isinstance(tgt, ast.Subscript):
                tgt = tgt.value
            if isinstance(tgt, ast.Name) and tgt.id in names:
                if not self._toplevel(m, node):
                    m.mutable_globals.add(tgt.id)

    def _toplevel(self, m, node):
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                for n in ast.walk(st):
                    if n is node:
                        return False
        return True

    def attr_mutated(self, name):
        """Is some attribute of that name ever modified in place."""
        if not hasattr(self, '_attrmut'):
            mut = set()
            for m in self.modules.values():
                for node in ast.walk(m.tree):
                    tgt = None
                    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                            node.func.attr in MUTATORS:
                        tgt = node.func.value
                    elif isinstance(node, ast.Subscript) and isinstance(node.ctx, (ast.Store, ast.Del)):
                        tgt = node.value
                    elif isinstance(node, ast.AugAssign):
                        tgt = node.target
                    while isinstance(tgt, ast.Subscript):
                        tgt = tgt.value
                    if isinstance(tgt, ast.Attribute):
                        mut.add(tgt.attr)
            self._attrmut = mut
        return name in self._attrmut

    # -- linking -----------------------------------------------------------
    def link(self):
        for ci in list(self.classes.values()):
            ci.bases = []
            ci._mro = None
            for b in ci.node.bases:
                r = self.resolve_expr(ci.module, b)
                if isinstance(r, ClassInfo):
                    ci.bases.append(r)
                else:
                    ci.bases.append(r if isinstance(r, str) else ast.unparse(b))

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            b = self.resolve(m, e.id)
            if b is None:
                return e.id
            if b[0] == 'class':
                return b[1]
            if b[0] == 'ext':
                return b[1]
            if b[0] == 'modext':
                return b[1]
            return None
        if isinstance(e, ast.Attribute):
            base = self.resolve_expr(m, e.value)
            if isinstance(base, str):
                return base + '.' + e.attr
        return None

    def resolve(self, m, name, seen=()):
        """-> ('func',fi) ('class',ci) ('module',Module) ('modext',name)
        ('ext',dotted) ('data',Module,name) or None"""
        b = m.bindings.get(name)
        if b is None:
            return None
        if b[0] in ('func', 'class'):
            return b
        if b[0] == 'data':
            return ('data', m, name)
        if b[0] == 'module':
            if b[1] in self.modules:
                return ('module', self.modules[b[1]])
            return ('modext', b[1])
        if b[0] == 'from':
            _, src, n = b
            if src in self.modules:
                sub = src + '.' + n
                if sub in self.modules and n not in self.modules[src].bindings:
                    return ('module', self.modules[sub])
                if (src, n) in seen:
                    return None
                r = self.resolve(self.modules[src], n, seen + ((src, n),))
                if r is None:
                    return ('ext', src + '.' + n)
                return r
            return ('ext', (src or '') + '.' + n)
        return None
