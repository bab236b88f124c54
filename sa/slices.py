"""Pieces of routines analysed on their own, and small helpers shared by the rules that do so."""
import ast

from .events import Trace, traces
from .probe import probe


def pn(f):
    return [a.arg for a in f.node.args.args if a.arg != 'self']


def tr(repo, f, cls, calls=(), cells=None, keep=None, env=None, **kw):
    c = Trace(calls=calls, cells=cells if cells is not None else (lambda c: False), keep=keep, **kw)
    c.havoc_containers = True
    return traces(repo, f, cls, client=c, env=env)


def nonempties(facts):
    return {k[1]: x for k, x in facts.items() if k[0] == 'nonempty'}


def alternatives(t):
    """the values a joined value stands for"""
    if t[0] == 'phi':
        return [y for x in sorted(t[1], key=repr) for y in alternatives(x)]
    if t[0] == 'elem' and t[1][0] == 'phi':
        return [('elem', y) if y[0] not in ('list', 'tuple') or len(y[1]) != 1 else y[1][0] for y in alternatives(t[1])]
    return [t]


def plain_functions(repo, module, cache={}):
    key = id(repo), id(module)
    if key not in cache:
        cache[key] = {x.name: x for x in repo.all_functions() if x.module is module and x.cls is None}
    return cache[key]


def reach(repo, f, seen=None):
    """f and the functions of its module it calls by plain name or on self"""
    seen = seen if seen is not None else {}
    if f.qualname in seen:
        return seen
    seen[f.qualname] = f
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            g = None
            if isinstance(n.func, ast.Name):
                g = plain_functions(repo, f.module).get(n.func.id)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and f.cls is not None:
                g = repo.method(f.cls, n.func.attr)
            if g is not None and g.module is f.module:
                reach(repo, g, seen)
    return seen


def outer_loops(repo, f, has, deep=True):
    """the outermost loops of f and of the routines it calls in which `has` holds of a node"""
    found = []

    def down(g, n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.For, ast.While)) and any(has(x) for x in ast.walk(ch)):
                found.append((g, ch))
            else:
                down(g, ch)
    for g in reach(repo, f).values() if deep else (f,):
        down(g, g.node)
    return found


def aliases(f, loop):
    """assignments before a loop that only give something a name"""
    def pure(v):
        while isinstance(v, ast.Attribute):
            v = v.value
        return isinstance(v, ast.Name)
    return [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and n.lineno < loop.lineno and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute) and pure(n.value)]


def zero_arg(f, loop):
    """assignments before a loop whose value is asked of self without arguments"""
    def of_self(v):
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'self' and not v.args and not v.keywords
    return sorted((n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and n.lineno < loop.lineno and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and of_self(n.value)), key=lambda n: n.lineno)


def in_context(repo, root, loops):
    """(function, loop, statements that give its names their values), once for every call of a helper"""
    out = []
    for g, loop in loops:
        pre = aliases(g, loop) + zero_arg(g, loop)
        sites = []
        if g.qualname != root.qualname:
            for h in reach(repo, root).values():
                for c in ast.walk(h.node):
                    if isinstance(c, ast.Call) and (c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', None)) == g.name:
                        sites.append((h, c))
        if not sites:
            out.append((g, loop, pre))
        for h, c in sites:
            known = {n.targets[0].id: n.value for n in aliases(h, c) + zero_arg(h, c)}
            got = list(zip(pn(g), c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg in pn(g)]
            bind = []
            for p, v in got:
                v = known.get(v.id) if isinstance(v, ast.Name) else v
                if isinstance(v, ast.Constant) or v is not None and all(n.id == 'self' for n in ast.walk(v) if isinstance(n, ast.Name)):
                    a = ast.Assign(targets=[ast.Name(id=p, ctx=ast.Store())], value=v)
                    bind.append(ast.fix_missing_locations(ast.copy_location(a, loop)))
            out.append((g, loop, bind + pre))
    return out


def read_first(body, name):
    """whether the statements read a name before they write it"""
    def order(n):
        if isinstance(n, ast.Name):
            yield isinstance(n.ctx, ast.Load), n
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for ch in ast.iter_child_nodes(n):
                yield from (p for p in order(ch) if p[1].id not in own)
        elif isinstance(n, ast.AugAssign):
            yield from ((True, x[1]) for x in order(n.target))
            yield from order(n.value)
        elif isinstance(n, ast.Assign):
            yield from order(n.value)
            for t in n.targets:
                yield from order(t)
        elif isinstance(n, ast.For):
            for ch in [n.iter, n.target] + n.body + n.orelse:
                yield from order(ch)
        else:
            for ch in ast.iter_child_nodes(n):
                yield from order(ch)
    for st in body:
        for load, n in order(st):
            if n.id == name:
                return load
    return False


def unit(f, *body):
    """statements as a routine of their own: what they only read becomes a parameter"""
    names = [n for st in body for n in ast.walk(st) if isinstance(n, ast.Name)]
    loaded = []
    for n in names:
        if n.id not in loaded:
            loaded.append(n.id)
    inside = {n.id for n in names if isinstance(n.ctx, ast.Store)}
    local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.node.args.args}
    params = {a.arg for a in f.node.args.args}
    free = [x for x in loaded if x in local and (x not in inside or x in params or read_first(body, x)) and x != 'self']
    src = 'def %s(%s):\n    pass' % (f.name, ', '.join((['self'] if f.cls is not None else []) + free))
    g = probe(f.module, src, f.cls)
    g.node.body = list(body)
    ast.copy_location(g.node, body[0])
    return g


def addends(t):
    """the terms of a sum, with signs: a list of (sign, term)"""
    if t[0] == 'bin' and t[1] in '+-':
        b = addends(t[3])
        return addends(t[2]) + (b if t[1] == '+' else [(-s, x) for s, x in b])
    if t[0] == 'un' and t[1] == '-':
        return [(-s, x) for s, x in addends(t[2])]
    if t[0] == 'un' and t[1] == '+':
        return addends(t[2])
    return [(1, t)]


def same_sum(a, b):
    key = lambda t: sorted(((s, x) for s, x in addends(t) if x != ('const', 0)), key=repr)
    return key(a) == key(b)


def starts_at(f, loop, name, value=0):
    """the last assignment to a local before the loop gives it a constant"""
    last = None
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign)) and n.lineno < loop.lineno:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                pairs = [(t, n.value)]
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    pairs = list(zip(t.elts, n.value.elts))
                for a, v in pairs:
                    if isinstance(a, ast.Name) and a.id == name and (last is None or n.lineno > last[0]):
                        last = (n.lineno, isinstance(n, ast.Assign) and isinstance(v, ast.Constant) and v.value == value)
    return bool(last and last[1])


def picked(repo, f, cls, I, key, **kw):
    """for every filtered comprehension of that value: [(facts, whether the element is taken)] of one generic element"""
    out = []
    for conds, env in I.compenvs.get(key, {}).values():
        test = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=list(conds))
        src = ast.If(test=test, body=[ast.Return(value=ast.Constant(value=True))], orelse=[ast.Return(value=ast.Constant(value=False))])
        ast.copy_location(src, f.node.body[0])
        ast.fix_missing_locations(src)
        u = unit(f, src)
        res, o, I2 = tr(repo, u, cls, env={n: env[n] for n in pn(u) if n in env}, **kw)
        out.append([(facts, v == ('const', True)) for ev, facts, v, st in res])
    return out
