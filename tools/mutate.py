"""Mutation survey: which small changes of the code do the obligations notice?
usage: mutate.py OUT.json MODULE[:function] ...     (development aid, no check runs it)"""
import ast
import copy
import json
import multiprocessing
import os
import shutil
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import model, lints      # noqa: E402

REPO = os.environ.get('SYMPL_REPO', '/repo')
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def sites(fn):
    """(description, apply) of the mutations of one function; apply works on a fresh copy"""
    out = []
    nodes = list(ast.walk(fn))

    def docstring(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((i, 'cmp', ln))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((i, 'bin', ln))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((i, 'bin', ln))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'bool', ln))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((i, 'unary', ln))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and n.value is not None:
            out.append((i, 'const', ln))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy':
            out.append((i, 'nocopy', ln))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('dict', 'list', 'tuple') and n.args:
            out.append((i, 'unwrap', ln))
        elif isinstance(n, ast.Continue):
            out.append((i, 'break', ln))
        if hasattr(n, 'body') and isinstance(n.body, list):
            for f in ('body', 'orelse', 'finalbody'):
                for j, s in enumerate(getattr(n, f, []) or []):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.If, ast.For, ast.Return)) and not docstring(s):
                        out.append((i, 'del:%s:%d' % (f, j), s.lineno))
    return out


def apply(fn, i, kind):
    n = list(ast.walk(fn))[i]
    if kind == 'cmp':
        n.ops = [CMP[type(n.ops[0])]()]
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'const':
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif kind.startswith('del'):
        _, f, j = kind.split(':')
        getattr(n, f)[int(j)] = ast.Pass()
    else:
        class R(ast.NodeTransformer):
            def visit(self, m):
                m = self.generic_visit(m)
                if m is n:
                    if kind == 'unary':
                        return m.operand
                    if kind == 'nocopy':
                        return m.func.value
                    if kind == 'unwrap':
                        return m.args[0]
                    if kind == 'break':
                        return ast.Break()
                return m
        R().visit(fn)


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    yield n.name + '.' + f.name, f
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            yield f.name, f


def base(name):
    sys.setrecursionlimit(20000)
    w = model.World(REPO)
    ob = [o for o in model.obligations(w) if o.name == name][0]
    t = time.time()
    o = model.check(w, ob, 60)
    return name, o.functions, o.status, time.time() - t, ob.options.get('inline', '')


def task(a):
    k, path, qual, i, kind, obs, ln = a
    sys.setrecursionlimit(20000)
    d = '/tmp/mut/%d' % k
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, 'sympl'), d + '/sympl')
    tree = ast.parse(open(os.path.join(REPO, path)).read())
    for q, f in functions(tree):
        if q == qual:
            apply(f, i, kind)
    ast.fix_missing_locations(tree)
    open(os.path.join(d, path), 'w').write(ast.unparse(tree))
    res = []
    killed = None
    try:
        w = model.World(d)
        ol = {o.name: o for o in model.obligations(w)}
        for n in obs:
            o = model.check(w, ol[n], 40)
            res.append((n, o.status, str(o.reason)[:70]))
            if o.status == 'violated':
                killed = n
                break
        if not killed:
            for n, (props, f) in lints.LINTS.items():
                if f(w)['violations']:
                    killed = n
                    break
    except Exception as e:
        res.append(('?', 'error', repr(e)[:100]))
    finally:
        shutil.rmtree(d)
    src = open(os.path.join(REPO, path)).read().splitlines()
    return dict(path=path, fn=qual, line=ln, kind=kind, i=i, killed=killed, res=res, src=src[ln - 1].strip() if ln else '')


def main():
    out, mods = sys.argv[1], sys.argv[2:]
    w = model.World(REPO)
    names = [o.name for o in model.obligations(w) if 'labelled_tracers' not in o.name and not o.name.startswith('unclaimed')]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        table = pool.map(base, names, chunksize=1)
        by = {}
        for n, fs, status, t, inl in table:
            if status == 'holds' and t < 30:
                for f in fs:
                    by.setdefault(f, []).append((t, n))
        tasks = []
        for m in mods:
            path, _, only = m.partition(':')
            tree = ast.parse(open(os.path.join(REPO, path)).read())
            mod = path[:-3].replace('/', '.')
            for q, f in functions(tree):
                if only and only not in q:
                    continue
                obs = [n for t, n in sorted(by.get(mod + '.' + q, []))]
                for i, kind, ln in sites(f):
                    tasks.append((len(tasks), path, q, i, kind, obs, ln))
        print(len(tasks), 'mutants', flush=True)
        r = pool.map(task, tasks, chunksize=1)
    json.dump(r, open(out, 'w'), indent=1)
    byfn = {}
    for x in r:
        e = byfn.setdefault((x['path'], x['fn']), [0, 0])
        e[0] += 1
        e[1] += bool(x['killed'])
    for k, (n, c) in sorted(byfn.items()):
        print('%-70s %3d/%3d' % (k[0] + ':' + k[1], c, n))
    print('killed', sum(bool(x['killed']) for x in r), 'of', len(r))


if __name__ == '__main__':
    main()
