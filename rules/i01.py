"""I01: independent problems do not influence each other through shared defaults, class, module or process state."""
import ast

from sa.repo import ClassInfo, Func, Module, dotted, relpath
from sa.util import *

EXPLANATION = (
    'Effect and escape analysis over every function of the package.  The values that outlive a model are the roots: module variables, class '
    'attributes (reached through the class, or through an instance whose constructor does not give it its own), default values of arguments, '
    'tables of memoised functions, classes, functions and modules themselves, and the settings of the interpreter.  Aliases of roots are '
    'followed through assignments, containers, returns and calls (summaries of what each function changes, stores and returns, iterated to a '
    'fixpoint).  No function may change a root or something reached from it, put a changeable one in an attribute that is changed anywhere, '
    'or change an interpreter setting without putting the saved value back in a `finally` (or on leaving the context that set it).')
RULE = 'effects(f) on module, class, default and memo roots = {}; escape(root, attr) => attr never mutated; setting changed => restored on all exits'
ASSUMPTIONS = ['the unit library and its cache are decided by U01, working directories by S04', 'warning filters, the profiler and the command line tools are not part of a model',
               'values the user hands to two models are the user\'s to share']

SKIP = ('openmdao.util.profile', 'openmdao.units', 'openmdao.devtools', 'openmdao.core.mpi_wrap', 'openmdao.__main__')
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'fill', 'resize',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft', 'rotate', 'itemset', 'put', 'partition', 'setfield',
            '__setitem__', '__delitem__', '__setattr__', 'setflags', 'move_to_end', 'add_option', 'add_node', 'add_edge', 'add_edges_from', 'add_nodes_from',
            'remove_node', 'remove_edge', 'remove_nodes_from', 'remove_edges_from'}
VIEWS = {'items', 'values', 'keys', 'iteritems', 'itervalues', 'get', 'setdefault', 'pop', 'ravel', 'reshape', 'view', 'viewitems', 'viewvalues', 'popitem'}
ITER = {'iteritems', 'itervalues', 'enumerate', 'zip', 'reversed', 'iter', 'sorted', 'chain', 'next', 'izip'}
IMMUTABLE_CALLS = {'compile', 'object', 'frozenset', 'tuple', 'namedtuple', 'get', 'getenv', 'getLogger', 'finfo', 'int', 'float', 'str', 'bool', 'len', 'max', 'min', 'abs', 'range',
                   'property', 'staticmethod', 'classmethod', 'sqrt', 'join', 'format', 'find_library', 'CDLL', 'environ', 'geterr', 'version', 'dirname', 'abspath'}
SETTINGS = {'numpy.seterr': 'geterr', 'numpy.seterrcall': 'geterrcall', 'numpy.set_printoptions': 'get_printoptions', 'numpy.random.seed': 'get_state', 'numpy.random.set_state': 'get_state',
            'random.seed': 'getstate', 'random.setstate': 'getstate', 'sys.setrecursionlimit': 'getrecursionlimit', 'os.umask': 'umask', 'locale.setlocale': 'getlocale',
            'signal.signal': 'getsignal', 'socket.setdefaulttimeout': 'getdefaulttimeout', 'logging.disable': '', 'gc.disable': '', 'gc.enable': '', 'os.putenv': '', 'os.unsetenv': '',
            'sys.setswitchinterval': 'getswitchinterval', 'sys.settrace': 'gettrace', 'sys.setprofile': 'getprofile', 'decimal.setcontext': 'getcontext', 'multiprocessing.set_start_method': '',
            'numpy.setbufsize': 'getbufsize', 'logging.basicConfig': ''}
COPIES = {'dict', 'OrderedDict', 'list', 'copy', 'tuple', 'sorted', 'defaultdict'}
PROCESS = ('sys.path', 'os.environ', 'sys.modules', 'sys.meta_path', 'sys.argv')


def immutable(e):
    """the value of this expression cannot be changed in place"""
    if e is None or isinstance(e, (ast.Constant, ast.Lambda, ast.Compare, ast.BinOp, ast.UnaryOp, ast.JoinedStr)):
        return not isinstance(e, ast.BinOp) or not any(isinstance(x, (ast.List, ast.ListComp)) for x in ast.walk(e))
    if isinstance(e, (ast.Tuple,)):
        return all(immutable(x) for x in e.elts)
    if isinstance(e, ast.BoolOp):
        return all(immutable(x) for x in e.values)
    if isinstance(e, ast.IfExp):
        return immutable(e.body) and immutable(e.orelse)
    if isinstance(e, ast.Call):
        nm = (dotted(e.func) or '').split('.')[-1]
        if nm in ('zeros', 'empty', 'array') and e.args and ast.unparse(e.args[0]) in ('0', '[]', '(0,)', '()'):
            return True
        return nm in IMMUTABLE_CALLS
    return False


def flat(e):
    """a container whose elements cannot be changed in place"""
    if isinstance(e, (ast.List, ast.Set, ast.Tuple)):
        return all(immutable(x) or isinstance(x, (ast.Name, ast.Attribute)) or isinstance(x, ast.Tuple) and flat(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return all(immutable(x) or isinstance(x, (ast.Name, ast.Attribute)) for x in e.values)
    if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in ('zeros', 'ones', 'empty', 'full', 'array', 'asarray', 'arange', 'set', 'linspace', 'eye'):
        return True
    if isinstance(e, ast.Call) and e.args and len(e.args) == 1 and not e.keywords:
        return flat(e.args[0])
    return False


class Fn(object):
    def __init__(self, repo, f):
        self.f, self.node, self.m, self.cls = f, f.node, f.module, f.cls
        a = self.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.allparams = self.params + self.kwonly + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.static = any(dotted(d) == 'staticmethod' for d in self.node.decorator_list)
        self.classm = any(dotted(d) == 'classmethod' for d in self.node.decorator_list)
        self.memo = any((dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1] in ('lru_cache', 'cache', 'memoize', 'memoized', 'memo') for d in self.node.decorator_list)
        self.globals = {n for x in ast.walk(self.node) if isinstance(x, ast.Global) for n in x.names}
        self.locals = set(self.allparams)
        self.binds = []     # (target node, value node, 'eq'|'elem')
        for n in ast.walk(self.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value, 'eq')
            elif isinstance(n, ast.AnnAssign) and n.value:
                self.bind(n.target, n.value, 'eq')
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value, 'eq')
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.bind(n.target, n.iter, 'elem')
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, i.context_expr, 'elem')
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not self.node:
                self.locals.add(n.name)
                if isinstance(n, ast.FunctionDef):
                    x = n.args
                    self.locals |= {y.arg for y in x.posonlyargs + x.args + x.kwonlyargs + [z for z in (x.vararg, x.kwarg) if z]}
            elif isinstance(n, ast.Lambda):
                pass
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= self.globals
        self.alias = {}       # local -> set of (root, depth, values)
        self.returns = set()  # roots returned
        self.mutates = set()  # indexes/names of parameters changed in place
        self.stores = {}      # parameter -> set of attribute names it is kept in

    def bind(self, t, v, how):
        if isinstance(t, (ast.Tuple, ast.List)):
            if how == 'eq' and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in v.elts + t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.bind(a, b, 'eq')
            else:
                for a in t.elts:
                    self.bind(a, v, 'elem')
            return
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Name):
            self.locals.add(t.id)
        self.binds.append((t, v, how))


class World(object):
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.fns, self.by_name, self.byq = [], {}, {}
        self.value = {}      # root -> defining expression
        for m in repo.modules.values():
            for n, v in m.assigns.items():
                self.value[('module', m.name, n)] = v
            for c in m.classes.values():
                for n, v in c.attrs.items():
                    self.value[('class', c.name, n)] = v
        for f in repo.all_functions():
            if f.module.name.startswith(SKIP):
                continue
            p = f.node._parent
            while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                p = getattr(p, '_parent', None)
            if isinstance(p, ast.FunctionDef):
                continue           # nested: part of the function around it
            x = Fn(repo, f)
            self.fns.append(x)
            self.by_name.setdefault(f.node.name, []).append(x)
            self.byq[(f.module.name, f.cls.name if f.cls else None, f.node.name)] = x
            for p, d in x.defaults.items():
                self.value[('default', f.qualname, p)] = d
        self.inst = {}       # attribute -> classes whose constructor sets it
        for x in self.fns:
            if x.cls is not None and x.node.name in ('__init__', '__new__'):
                for n in ast.walk(x.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in x.params[:1]:
                        self.inst.setdefault(n.attr, set()).add(x.cls.name)

    # ---------------------------------------------------------------- roots
    def changeable(self, root, depth):
        if root[0] in ('klass', 'func', 'pymodule', 'process', 'self'):
            return root[0] != 'self'
        if root[0] == 'memo':
            return True
        v = self.value.get(root)
        if v is None:
            return False
        if isinstance(v, ast.Name) or isinstance(v, ast.Attribute):
            # another name of something: a class, function, constant or module variable
            return False
        return not immutable(v) and not (depth and flat(v))

    def roots(self, x, e, depth=0):
        """what the value of e may be (part of): set of (root, depth)"""
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            if e.id in x.locals:
                r = set(x.alias.get(e.id, ()))
                if e.id in x.allparams:
                    r.add((('param', e.id), 0))
                    if e.id in x.defaults:
                        r.add((('default', x.f.qualname, e.id), 0))
                    if x.cls is not None and x.params[:1] == [e.id] and not x.static:
                        r.add((('klass', x.cls.name) if x.classm else ('self', x.cls.name), 0))
                return r
            return self.name_root(x.m, e.id)
        if isinstance(e, ast.Attribute):
            if e.attr == '__class__':
                return {(('klass', r[1]), 0) for r, d in self.roots(x, e.value) if r[0] == 'self'}
            if e.attr == '__dict__':
                return self.roots(x, e.value)
            d = dotted(e)
            if d and d.split('.')[0] not in x.locals:
                full = self.full(x.m, d)
                if full in PROCESS or any(full.startswith(p + '.') for p in PROCESS):
                    return {(('process', full), 0)}
            out = set()
            for r, k in self.roots(x, e.value):
                if r[0] == 'self':
                    out |= self.self_attr(x, r[1], e.attr)
                elif r[0] == 'klass':
                    c = self.repo._by_class.get(r[1], [None])[0]
                    hit = next((q for q in self.repo.mro(c) if e.attr in q.attrs), None) if c else None
                    if hit is not None:
                        out.add((('class', hit.name, e.attr), 0))
                    else:
                        out.add((r, 1))
                elif r[0] == 'pymodule':
                    m = self.repo.modules.get(r[1])
                    if m is not None:
                        out |= self.name_root(m, e.attr)
                elif r[0] == 'param':
                    continue
                else:
                    out.add((r, k + 1))
            return out
        if isinstance(e, ast.Subscript):
            return {(r[1] if r[0] == 'shell' else r, d + 1) for r, d in self.roots(x, e.value) if r[0] not in ('self',)}
        if isinstance(e, ast.Starred):
            return self.roots(x, e.value)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.roots(x, v) for v in e.values])
        if isinstance(e, ast.IfExp):
            return self.roots(x, e.body) | self.roots(x, e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.roots(x, e.value)
        if isinstance(e, (ast.Tuple, ast.List)):
            return {(r, d) for v in e.elts for r, d in self.roots(x, v) if r[0] not in ('self', 'klass', 'func', 'pymodule')}
        if isinstance(e, ast.Call):
            nm = dotted(e.func) or ''
            last = nm.split('.')[-1] if nm else (e.func.attr if isinstance(e.func, ast.Attribute) else '')
            if last == 'type' and len(e.args) == 1:
                return {(('klass', r[1]), 0) for r, d in self.roots(x, e.args[0]) if r[0] == 'self'}
            if last in ('vars', 'super') and len(e.args) == 1 and last == 'vars':
                return self.roots(x, e.args[0])
            if last == 'globals' and not e.args:
                return {(('pymodule', x.m.name), 0)}
            if last == 'getattr' and e.args:
                a = e.args[1] if len(e.args) > 1 else None
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    at = ast.copy_location(ast.Attribute(value=e.args[0], attr=a.value, ctx=ast.Load()), e)
                    return self.roots(x, at) | (self.roots(x, e.args[2]) if len(e.args) > 2 else set())
                return {(r, d + 1) for r, d in self.roots(x, e.args[0]) if r[0] != 'self'}
            if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS:
                out = {(r[1] if r[0] == 'shell' else r, d + 1) for r, d in self.roots(x, e.func.value) if r[0] not in ('self', 'klass', 'func', 'pymodule', 'process')}
                for a in e.args[1:]:
                    out |= self.roots(x, a)
                return {(r, d) for r, d in out}
            if last in ITER:
                return set().union(*[{(r, d) for r, d in self.roots(x, a) if r[0] not in ('self', 'klass', 'func', 'pymodule')} for a in e.args]) if e.args else set()
            if last in COPIES and e.args or isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args:
                src = e.args[0] if e.args else e.func.value
                return {(r if r[0] == 'shell' else ('shell', r), 0) for r, d in self.roots(x, src) if d == 0 and r[0] in ('module', 'class', 'default', 'shell') and not flat(self.value.get(r))}
            if last in ('asarray', 'atleast_1d', 'ravel', 'asanyarray', 'squeeze', 'reshape', 'transpose') and e.args:
                return self.roots(x, e.args[0])
            out = set()
            for t, off in self.targets(x, e):
                for r, d in t.returns:
                    if r[0] == 'param':
                        for a in self.args_for(t, e, off, r[1]):
                            out |= {(q, d + k) for q, k in self.roots(x, a) if q[0] != 'self'}
                    else:
                        out.add((r, d))
                if t.memo:
                    out.add((('memo', t.f.qualname), 0))
            return out
        return set()

    def full(self, m, d):
        head, _, rest = d.partition('.')
        return m.imports.get(head, head) + ('.' + rest if rest else '')

    def name_root(self, m, name):
        if name in m.assigns or any(name in x for x in ()):
            v = m.assigns[name]
            if isinstance(v, (ast.Name, ast.Attribute)):
                r = self.repo.resolve_name(m, name)
                if isinstance(r, (ClassInfo, Func, Module)):
                    return self.obj_root(r)
            return {(('module', m.name, name), 0)}
        if name in m.imports:
            full = m.imports[name]
            if full in PROCESS:
                return {(('process', full), 0)}
            mod, _, last = full.rpartition('.')
            if mod in self.repo.modules and last in self.repo.modules[mod].assigns:
                return self.name_root(self.repo.modules[mod], last)
            r = self.repo.resolve_dotted(full)
            if isinstance(r, str):
                return {(('pymodule', r), 0)} if r[:1].islower() else set()
            return self.obj_root(r)
        r = self.repo.resolve_name(m, name)
        return self.obj_root(r)

    def obj_root(self, r):
        if isinstance(r, ClassInfo):
            return {(('klass', r.name), 0)}
        if isinstance(r, Func):
            return {(('func', r.qualname), 0)}
        if isinstance(r, Module):
            return {(('pymodule', r.name), 0)}
        return set()

    def self_attr(self, x, cname, attr):
        """self.attr: a class attribute unless every constructor gives the instance its own"""
        out = {(('attr', cname, attr), 0)}
        c = x.cls
        for k in self.repo.subclasses(c):
            mro = self.repo.mro(k)
            hit = next((q for q in mro if attr in q.attrs), None)
            if hit is not None and not any(q.name in self.inst.get(attr, ()) for q in mro):
                out.add((('class', hit.name, attr), 0))
        return out

    # ---------------------------------------------------------------- calls
    def targets(self, x, call):
        f = call.func
        if isinstance(f, ast.Name) and f.id not in x.locals or isinstance(f, ast.Attribute) and (dotted(f) or '').split('.')[0] in x.m.imports and (dotted(f) or '').split('.')[0] not in x.locals:
            r = self.repo.resolve_name(x.m, dotted(f))
            if isinstance(r, Func):
                t = self.byq.get((r.module.name, None, r.node.name))
                return [(t, 0)] if t else []
            if isinstance(r, ClassInfo):
                i = self.repo.method(r, '__init__')
                t = i and self.byq.get((i.module.name, i.cls.name, '__init__'))
                return [(t, 1)] if t else []
            return []
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and x.cls is not None:
                i = self.repo.method(x.cls, f.attr, after=x.cls)
                t = i and self.byq.get((i.module.name, i.cls.name, f.attr))
                return [(t, 1)] if t else []
            cand = [t for t in self.by_name.get(f.attr, ()) if t.cls is not None]
            if isinstance(f.value, ast.Name) and x.params[:1] == [f.value.id] and x.cls is not None:
                fam = set(c.name for k in self.repo.subclasses(x.cls) for c in self.repo.mro(k))
                cand = [t for t in cand if t.cls.name in fam]
            elif len(cand) > 12 or f.attr in MUTATORS | VIEWS:
                cand = []
            return [(t, 0 if t.static else 1) for t in cand]
        return []

    def args_for(self, t, call, off, p):
        out = [k.value for k in call.keywords if k.arg == p]
        if p in t.params:
            i = t.params.index(p) - off
            if 0 <= i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
                out.append(call.args[i])
        a = t.node.args
        if a.kwarg and a.kwarg.arg == p:
            out += [k.value for k in call.keywords if k.arg is not None and k.arg not in t.params + t.kwonly]
        return out

    # ---------------------------------------------------------------- fixpoint
    def fixpoint(self):
        changed, rounds = True, 0
        while changed and rounds < 12:
            changed, rounds = False, rounds + 1
            for x in self.fns:
                for t, v, how in x.binds:
                    if isinstance(t, ast.Name) and t.id in x.locals:
                        new = {(r, min(d + (how == 'elem'), 3)) for r, d in self.roots(x, v) if r[0] not in ('process',)}
                        if how == 'elem':
                            new = {(r[1] if r[0] == 'shell' else r, d) for r, d in new if r[0] not in ('self', 'klass', 'func', 'pymodule')}
                        if not new <= x.alias.get(t.id, set()):
                            x.alias.setdefault(t.id, set()).update(new)
                            changed = True
                for n in ast.walk(x.node):
                    if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                        new = {(r, min(d, 3)) for r, d in self.roots(x, n.value) if r[0] not in ('self', 'attr')} - x.returns
                        if new:
                            x.returns |= new
                            changed = True
                for r, d, n, what in self.effects(x):
                    if r[0] == 'param' and r[1] not in x.mutates and r[1] != (x.params[:1] if x.cls is not None else [None])[0]:
                        x.mutates.add(r[1])
                        changed = True
                for r, attr, owner, n in self.escapes(x):
                    if r[0] == 'param' and (attr, owner) not in x.stores.get(r[1], set()):
                        x.stores.setdefault(r[1], set()).add((attr, owner))
                        changed = True
        self.rounds = rounds

    def effects(self, x):
        """(root, depth, node, what) for every in-place change"""
        for n in ast.walk(x.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, (ast.For, ast.comprehension)):
                tg = [n.target]
            elif isinstance(n, ast.With):
                tg = [i.optional_vars for i in n.items if i.optional_vars is not None]
            stack = list(tg)
            while stack:
                t = stack.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    stack += t.elts
                elif isinstance(t, ast.Starred):
                    stack.append(t.value)
                elif isinstance(t, (ast.Attribute, ast.Subscript)):
                    for r, d in self.roots(x, t.value):
                        if r[0] == 'self':
                            if isinstance(n, ast.AugAssign) and isinstance(t, ast.Attribute):
                                for q, k in self.self_attr(x, r[1], t.attr):
                                    if self.changeable(q, 0):
                                        yield q, k, n, 'changed in place'
                            continue
                        yield r, d, n, 'assigned to'
                    if isinstance(n, ast.AugAssign):
                        for r, d in self.roots(x, t):
                            if r[0] not in ('self',):
                                yield r, d, n, 'changed in place'
                elif isinstance(t, ast.Name):
                    if t.id in x.globals:
                        yield ('module', x.m.name, t.id), 0, n, 'rebound'
                    elif isinstance(n, ast.AugAssign):
                        for r, d in self.roots(x, t):
                            if r[0] != 'self':
                                yield r, d, n, 'changed in place'
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    for r, d in self.roots(x, f.value):
                        if r[0] in ('self', 'klass', 'pymodule', 'func'):
                            continue
                        yield r, d, n, 'changed by .%s()' % f.attr
                nm = dotted(f) or ''
                if nm in ('setattr', 'delattr') and n.args:
                    for r, d in self.roots(x, n.args[0]):
                        if r[0] != 'self':
                            yield r, d, n, 'assigned to by %s()' % nm
                if nm.split('.')[-1] in ('copyto', 'put', 'place', 'putmask', 'shuffle', 'fill_diagonal') and n.args:
                    for r, d in self.roots(x, n.args[0]):
                        if r[0] != 'self':
                            yield r, d, n, 'changed by %s()' % nm
                for k in n.keywords:
                    if k.arg == 'out':
                        for r, d in self.roots(x, k.value):
                            if r[0] != 'self':
                                yield r, d, n, 'changed as out='
                for t, off in self.targets(x, n):
                    for p in t.mutates:
                        for a in self.args_for(t, n, off, p):
                            for r, d in self.roots(x, a):
                                if r[0] != 'self':
                                    yield r, d, n, 'changed by %s' % t.f.qualname

    def escapes(self, x):
        """(root, attribute, owner class or None, node): kept in an attribute of an object"""
        for t, v, how in x.binds:
            base = t
            while isinstance(base, ast.Subscript):
                base = base.value
            if isinstance(base, ast.Attribute):
                own = None
                if isinstance(base.value, ast.Name) and x.cls is not None and x.params[:1] == [base.value.id]:
                    own = x.cls.name
                elem = how == 'elem' or base is not t
                for r, d in self.roots(x, v):
                    if r[0] in ('self', 'klass', 'func', 'pymodule', 'attr', 'process'):
                        continue
                    yield (r, base.attr, own, t) if not elem else (r, base.attr, own, t)
        for n in ast.walk(x.node):
            if isinstance(n, ast.Call):
                for t, off in self.targets(x, n):
                    for p, at in t.stores.items():
                        for a in self.args_for(t, n, off, p):
                            for r, d in self.roots(x, a):
                                if r[0] in ('self', 'klass', 'func', 'pymodule', 'attr', 'process'):
                                    continue
                                for attr, own in at:
                                    yield r, attr, own, n


def where(x, n):
    return '%s:%d' % (relpath(x.m.path), n.lineno)


def name(r):
    return '.'.join(r[1:]) if r[0] != 'default' else 'default of %s in %s' % (r[2], r[1])


def outermost(w, x):
    """the function a private helper with one caller belongs to"""
    seen = {id(x)}
    while x.node.name.startswith('_') and not x.node.name.startswith('__'):
        up = {id(y): y for y in w.fns if y is not x for n in ast.walk(y.node) if isinstance(n, ast.Call)
              and (dotted(n.func) or (n.func.attr if isinstance(n.func, ast.Attribute) else '')).split('.')[-1] == x.node.name}
        if len(up) != 1 or set(up) & seen:
            return x
        x = list(up.values())[0]
        seen.add(id(x))
    return x


def check_effects(w, rep):
    attr_muts = {}    # attribute -> [(class or None, function, node)]
    for x in w.fns:
        for r, d, n, what in w.effects(x):
            if r[0] == 'attr':
                attr_muts.setdefault(r[2], []).append((r[1], x, n, d))
        # changes of attributes of other objects: obj.attr[..] = / obj.attr.append
        for n in ast.walk(x.node):
            tgt = None
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    b, depth = t, -1
                    while isinstance(b, ast.Subscript):
                        b, depth = b.value, depth + 1
                    if b is not t and isinstance(b, ast.Attribute):
                        attr_muts.setdefault(b.attr, []).append((None, x, n, depth))
                    elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Attribute) and isinstance(n, ast.Assign):
                        attr_muts.setdefault(b.value.attr, []).append((None, x, n, 0))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b, depth = n.func.value, 0
                while isinstance(b, ast.Subscript):
                    b, depth = b.value, depth + 1
                if isinstance(b, ast.Attribute):
                    attr_muts.setdefault(b.attr, []).append((None, x, n, depth))
    for x in w.fns:
        rep.fn(x.f.qualname)
        bad = {}
        for r, d, n, what in w.effects(x):
            if r[0] in ('param', 'attr', 'self', 'shell'):
                continue
            if r[0] == 'process' and x.f.qualname == 'worker':
                continue      # the settings of a worker process of its own
            if r[0] in ('klass', 'func', 'pymodule') and d > 0:
                continue
            if r[0] in ('module', 'class', 'default') and not (what == 'rebound' or w.changeable(r, d) or (r[0] != 'default' and 'assigned' in what and d == 0 and what.startswith('assigned') and not immutable(w.value.get(r)))):
                continue
            bad.setdefault(r, (n, what))
        rep.ob('effects/' + x.f.qualname, not bad, '', x.f.where, 'no shared state changed')
        for r, (n, what) in bad.items():
            rep.obligations[-1]['ok'] = True
            attr = n.targets[0].attr if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) else ''
            rep.ob('effects/%s/%s' % (outermost(w, x).f.qualname, name(r) + ('.' + attr if attr and r[0] in ('klass', 'func', 'pymodule') else '')), False,
                   '%s: the %s %s, which every model of the process shares, is %s' % (x.f.qualname, {'module': 'module variable', 'class': 'class attribute', 'klass': 'class', 'func': 'function',
                                                                                                    'pymodule': 'module', 'process': 'interpreter setting', 'memo': 'memoised value', 'default': 'value'}[r[0]],
                                                                                    name(r) + ('.' + attr if attr else ''), what), where(x, n), 'no shared state changed')
        for r, attr, own, n in w.escapes(x):
            shell = r[0] == 'shell'
            r = r[1] if shell else r
            if r[0] not in ('module', 'class', 'default', 'memo'):
                continue
            v = w.value.get(r)
            obj = isinstance(v, ast.Call) and (isinstance(w.repo.resolve_name(x.m, dotted(v.func) or ''), ClassInfo) or w.repo.has_cls((dotted(v.func) or '').split('.')[-1]))
            if not w.changeable(r, 0):
                continue
            fam = None
            if own is not None and w.repo.has_cls(own):
                fam = {c.name for k in w.repo.subclasses(w.repo.cls(own)) for c in w.repo.mro(k)}
            hits = [(c, y, k) for c, y, k, d in attr_muts.get(attr, ()) if d >= (1 if shell else 0) and (c is None and not (isinstance(k, ast.AST) and y is x and k is n) or fam is None or c in fam)]
            rep.saw('escapes_followed')
            rep.ob('escape/%s/%s -> %s' % (x.f.qualname, name(r), attr), not (obj or hits),
                   '%s: the %s, one object for every model of the process, is kept in .%s%s' % (x.f.qualname, name(r), attr, ', which %s changes' % hits[0][1].f.qualname if hits else ' and has state of its own'),
                   where(x, n), 'shared values that are kept are never changed')


def inside(n, kinds, stop):
    while n is not None and n is not stop:
        p = getattr(n, '_parent', None)
        if isinstance(p, kinds):
            yield p, n
        n = p


def check_settings(w, rep):
    for x in w.fns:
        calls = []
        for n in ast.walk(x.node):
            if isinstance(n, ast.Call) and dotted(n.func) and dotted(n.func).split('.')[0] not in x.locals:
                full = w.full(x.m, dotted(n.func)).replace('numpy.core.numeric.', 'numpy.')
                if full in SETTINGS:
                    calls.append((n, full))
        for n, full in calls:
            fin = any(isinstance(p, ast.Try) and any(c in ast.walk(s) for s in p.finalbody for c in [n]) for p, _ in inside(n, ast.Try, x.node))
            flag = any(isinstance(p, ast.If) and ch in p.body and not any(isinstance(y, ast.Not) for y in ast.walk(p.test)) and any(
                isinstance(y, ast.Name) and y.id in x.allparams and isinstance(x.defaults.get(y.id), ast.Constant) and not x.defaults[y.id].value for y in ast.walk(p.test)) for p, ch in inside(n, ast.If, x.node))
            if flag:
                rep.saw('settings_asked_for')
                continue
            if x.node.name == '__exit__':
                continue
            if fin:
                continue
            # a finally that puts the saved value back
            tries = [p for p, ch in inside(n, ast.Try, x.node) if ch in p.body]
            st = n
            while getattr(st, '_parent', None) is not None and not isinstance(st, ast.stmt):
                st = st._parent
            blk = next((b for b in (getattr(st._parent, k, None) for k in ('body', 'orelse', 'finalbody')) if isinstance(b, list) and st in b), [])
            i = blk.index(st) if st in blk else -1
            j = i + 1
            while 0 <= j < len(blk) and any(isinstance(c, ast.Call) and any(c is k for k, _ in calls) for c in ast.walk(blk[j])) and not isinstance(blk[j], ast.Try):
                j += 1
            while 0 <= j < len(blk) and not isinstance(blk[j], ast.Try) and not any(isinstance(c, (ast.Call, ast.Subscript, ast.Yield, ast.Raise)) for c in ast.walk(blk[j])):
                j += 1
            if 0 <= j < len(blk) and isinstance(blk[j], ast.Try):
                tries.append(blk[j])
            saved = {}      # local -> getter
            for t, v, how in x.binds:
                if isinstance(t, ast.Name) and isinstance(v, ast.Call) and dotted(v.func):
                    g = w.full(x.m, dotted(v.func))
                    if g.split('.')[-1] == SETTINGS[full] or g == full:
                        saved[t.id] = v
            ok, why = False, 'is not put back when the code after it fails'
            for t in tries:
                for c in [c for s in t.finalbody for c in ast.walk(s) if isinstance(c, ast.Call)]:
                    if dotted(c.func) and w.full(x.m, dotted(c.func)) == full:
                        names = {y.id for y in ast.walk(c) if isinstance(y, ast.Name)} & set(saved)
                        star = any(k.arg is None for k in c.keywords) or bool(c.args) and not c.keywords
                        want = {k.arg for k in n.keywords if k.arg}
                        have = {}
                        for k in c.keywords:
                            if k.arg:
                                have[k.arg] = any(isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Constant) and y.slice.value == k.arg and isinstance(y.value, ast.Name) and y.value.id in names
                                                  for y in ast.walk(k.value)) or isinstance(k.value, ast.Name) and True
                        if names and (star or want and not (n.args or None in {k.arg for k in n.keywords}) and all(have.get(k) for k in want)):
                            # the value must have been read before it was changed
                            if all(saved[m_].lineno <= n.lineno for m_ in names):
                                ok = True
                        else:
                            why = 'is not put back to what it was'
            if not ok and x.node.name == '__enter__' and x.cls is not None and '__exit__' in x.cls.methods:
                ok = any(isinstance(c, ast.Call) and dotted(c.func) and w.full(x.m, dotted(c.func)) == full for c in ast.walk(x.cls.methods['__exit__']))
            rep.saw('settings_changed')
            rep.ob('settings/%s/%s' % (x.f.qualname, full), ok, '%s: the setting changed by %s, which the whole process shares, %s' % (x.f.qualname, full, why), where(x, n), 'settings restored')


def check(repo, rep, tier):
    w = World(repo, rep)
    w.fixpoint()
    rep.saw('functions', len(w.fns))
    rep.saw('shared_roots', len(w.value))
    rep.saw('fixpoint_rounds', w.rounds)
    check_effects(w, rep)
    check_settings(w, rep)
    for c in ('Problem', 'Group', 'Component', 'Driver', 'VecWrapper', 'RecordingManager'):
        rep.need(repo.has_cls(c), 'class %s not found' % c)
