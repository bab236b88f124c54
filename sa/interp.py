"""Path-sensitive typestate dataflow over the Python syntax tree.

The analysis is a syntax-directed abstract interpretation in the style of ESP
(property simulation): abstract states carry
  * env/heap  - value numbers (sa.terms) of locals, attributes and items,
  * facts     - the truth of branch conditions already decided on the path,
  * auto      - the state of the client's property automaton,
and are merged at joins when automaton state, facts and constant-valued flags
agree (locals that differ become phi terms).  Loops run to a fixpoint with
loop-varying values widened to `mu` terms.  Calls that resolve inside the
repository (self methods through the class hierarchy, module functions, nested
functions, super(), contextmanagers) are inlined up to a depth bound; all other
calls are opaque: they return a fresh value and may raise.

Clients override the hooks of `Client`; nothing of the analysed program runs.
"""
import ast

from . import terms as T
from .repo import AnalysisBroken, ClassInfo, Func, Module, dotted

PURE = {
    'isinstance', 'len', 'max', 'min', 'abs', 'any', 'all', 'float', 'int', 'str',
    'bool', 'getattr', 'hasattr', 'tuple', 'list', 'sorted', 'set', 'sum', 'type',
    'range', 'zip', 'enumerate', 'id', 'callable', 'repr', 'round', 'issubclass',
    'reversed', 'frozenset', 'map', 'filter', 'dict', 'iter', 'next', 'chr', 'ord',
}
NOTHROW_BUILTIN = {
    'isinstance', 'len', 'max', 'min', 'abs', 'any', 'all', 'str', 'bool', 'hasattr', 'id',
    'tuple', 'list', 'sorted', 'set', 'range', 'zip', 'enumerate', 'type', 'repr',
    'reversed', 'callable', 'dict', 'print', 'frozenset', 'map', 'filter', 'super', 'iter',
    'float', 'int', 'sum', 'round', 'getattr',
}
NOTHROW_METHODS = {
    'append', 'items', 'keys', 'values', 'iteritems', 'get', 'format', 'join', 'split',
    'startswith', 'endswith', 'strip', 'add', 'extend', 'copy', 'update', 'setdefault',
    'lower', 'upper', 'insert', 'rstrip', 'lstrip', 'splitlines', 'sort', 'reverse', 'clear',
}
NOTHROW_EXT = {
    'six.iteritems', 'six.itervalues', 'six.iterkeys', 'itertools.chain',
    'collections.OrderedDict', 'time.time', 'sys.exc_info',
    'warnings.warn', 'warnings.simplefilter', 'numpy.zeros', 'numpy.ones', 'numpy.isnan',
    'numpy.isinf', 'numpy.empty', 'numpy.isfinite',
}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
BUILTINS |= {'basestring', 'unicode', 'xrange', 'raw_input', 'long'}

GROW = {'append', 'extend', 'insert', 'pop', 'remove', 'add', 'update', 'setdefault', 'clear', 'appendleft', 'popleft'}

NEG = {'lt': 'le', 'le': 'lt'}


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'auto', 'trail')

    def __init__(self, env, heap, facts, auto, trail=()):
        self.env, self.heap, self.facts, self.auto, self.trail = env, heap, facts, auto, trail

    def w(self, **kw):
        return State(kw.get('env', self.env), kw.get('heap', self.heap),
                     kw.get('facts', self.facts), kw.get('auto', self.auto),
                     kw.get('trail', self.trail))

    def bind(self, name, val):
        e = dict(self.env)
        e[name] = val
        return self.w(env=e)

    def put(self, cell, val):
        h = dict(self.heap)
        h[cell] = val
        return self.w(heap=h)

    def get(self, cell):
        return self.heap.get(cell, cell)

    def setauto(self, a, note=None):
        return self.w(auto=a, trail=self.trail if note is None else (self.trail + (note,))[-8:])

    def fact(self, t):
        return self.facts.get(t)


class Out(object):
    __slots__ = ('normal', 'ret', 'exc', 'brk', 'cont')

    def __init__(self):
        self.normal, self.ret, self.exc, self.brk, self.cont = [], [], [], [], []


class Client(object):
    max_depth = 6
    max_states = 40
    havoc_loops = False        # with generic_loops: forget constants changed by the body before the generic iteration
    unroll = 0                 # loops over literals of at most this many elements are unrolled
    havoc_containers = False   # the same for list and dict literals that the body grows
    generic_loops = False      # True: a loop body is run for one generic element
    loop_passes = 3

    def init_auto(self):
        return ()

    def on_call(self, I, st, fn, args, kwargs, node):
        return None

    def inline(self, I, fn, func):
        return True

    def nothrow(self, I, st, fn, node):
        return False

    def pure(self, I, fn):
        return False

    def implicit_fault(self, I, st, node):
        """may the body of a try without any throwing call still raise (subscripts, arithmetic)?"""
        return True

    def on_store(self, I, st, cell, value, node):
        return st

    def on_aug(self, I, st, cell, old, op, value, node):
        return st

    def on_load(self, I, st, cell, node):
        return None

    def on_branch(self, I, st, cond, val, node):
        return st

    def on_with(self, I, st, term, node):
        """return None (default treatment) or a dict(enter=f(st)->st, exit=f(st,kind)->st)"""
        return None

    def on_raise(self, I, st, exc, node):
        return st

    def on_yield(self, I, st, node):
        return st

    def on_yield_val(self, I, st, node, v):
        return self.on_yield(I, st, node)

    def on_head(self, I, st, node, it):
        """a generic iteration of a loop is about to start (after havoc)"""
        return st

    def on_loop_back(self, I, st, node):
        return st

    def inplace(self, cell, old):
        """is `cell op= v` an update of the object held by the cell (array) rather than a rebinding?"""
        return False

    def on_iter(self, I, st, node, it):
        return st

    def on_loop_enter(self, I, st, node):
        return st

    def on_loop_exit(self, I, st, node):
        return st

    def typeof(self, I, term):
        return None

    def assume(self, term):
        """force the truth of a condition (None: unknown)"""
        return None

    def autokey(self, auto):
        return auto

    def nowiden(self, term):
        """terms of a finite domain need no widening"""
        return False

    def keyfact(self, term):
        """does the truth of `term` keep states apart at joins?"""
        return True


class Frame(object):
    def __init__(self, func, self_term, self_cls, ctx):
        self.func, self.self_term, self.self_cls, self.ctx = func, self_term, self_cls, ctx
        self.yield_k = None
        self.loops = []


class Interp(object):
    def __init__(self, repo, client):
        self.repo, self.client = repo, client
        self.frames = []
        self.types = {}
        self.excs = None          # collector of exceptional states
        self.inlined = set()
        self.opaque = set()
        self.closures = {}
        self.allconds = {}
        self.compenvs = {}        # filtered comprehension -> {node: (filters, names they are evaluated with)}
        self.compconds = {}       # filtered comprehension -> its filters
        self.steps = 0
        self.max_steps = 400000

    # ------------------------------------------------------------ entry
    def run(self, func, self_cls=None, env=None, self_term=T.SELF, heap=None, facts=None):
        """analyse one function; returns Out with ret (normal completion folded in) and exc"""
        env = dict(env or {})
        a = func.node.args
        names = [x.arg for x in a.args]
        st_env = {}
        is_static = any(dotted(d) == 'staticmethod' for d in func.node.decorator_list)
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and not is_static:
                st_env[n] = self_term
            else:
                st_env[n] = ('param', n)
        if a.vararg:
            st_env[a.vararg.arg] = ('param', '*' + a.vararg.arg)
        for x in a.kwonlyargs:
            st_env[x.arg] = ('param', x.arg)
        if a.kwarg:
            st_env[a.kwarg.arg] = ('param', '**' + a.kwarg.arg)
        st_env.update(env)
        cls = self_cls or func.cls
        if cls is not None:
            self.types[self_term] = cls
        st = State(st_env, dict(heap or {}), dict(facts or {}), self.client.init_auto())
        fr = Frame(func, self_term, cls, ())
        self.frames.append(fr)
        self.excs = []
        try:
            out = self.block(func.node.body, [st])
        finally:
            self.frames.pop()
        res = Out()
        res.ret = [(s, t) for s, t in out.ret] + [(s, T.NONE) for s in out.normal]
        res.exc = self.excs
        res.cont, res.brk = out.cont, out.brk
        return res

    @property
    def frame(self):
        return self.frames[-1]

    def loc(self, node):
        from .repo import relpath
        return '%s:%d' % (relpath(self.frame.func.module.path), getattr(node, 'lineno', 0))

    # ------------------------------------------------------------ merging
    def key(self, st):
        flags = tuple(sorted(((k, v) for k, v in st.env.items()
                              if v[0] == 'const' and (v[1] is None or isinstance(v[1], (bool, str)))),
                             key=repr))
        return (self.client.autokey(st.auto),
                frozenset((k, v) for k, v in st.facts.items() if self.client.keyfact(k)), flags)

    def merge(self, states, vals=None):
        """merge list of states (optionally paired with value terms)."""
        if len(states) <= 1:
            return states if vals is None else list(zip(states, vals))

        def do(keyf):
            groups = {}
            order = []
            for i, s in enumerate(states):
                k = keyf(s) if vals is None else (keyf(s), vals[i] if vals[i][0] == 'const' else 0)
                if k not in groups:
                    groups[k] = []
                    order.append(k)
                groups[k].append(i)
            return groups, order
        groups, order = do(self.key)
        if len(order) > self.client.max_states:
            groups, order = do(lambda s: self.client.autokey(s.auto))
        res = []
        for k in order:
            idx = groups[k]
            s = self.join([states[i] for i in idx])
            if vals is None:
                res.append(s)
            else:
                res.append((s, T.phi([vals[i] for i in idx])))
        return res

    def join(self, sts):
        s0 = sts[0]
        if len(sts) == 1:
            return s0
        env = {}
        names = set()
        for s in sts:
            names |= set(s.env)
        for n in names:
            vs = [s.env.get(n, T.UNDEF) for s in sts]
            if n in ('$parent', '$caller'):
                env[n] = ('env', _FrozenEnv(self._join_dicts(
                    [v[1].d for v in vs if v[0] == 'env'])))
                continue
            env[n] = vs[0] if all(v == vs[0] for v in vs) else T.phi(vs)
        heap = {}
        cells = set()
        for s in sts:
            cells |= set(s.heap)
        for c in cells:
            if c and c[0] == 'items':
                u = frozenset()
                for s in sts:
                    u |= s.heap.get(c, frozenset())
                heap[c] = u
                continue
            vs = [s.heap.get(c, c) for s in sts]
            heap[c] = vs[0] if all(v == vs[0] for v in vs) else T.phi(vs)
        facts = dict(s0.facts)
        for s in sts[1:]:
            facts = {k: v for k, v in facts.items() if s.facts.get(k) == v}
        return State(env, heap, facts, s0.auto, s0.trail)

    def _join_dicts(self, ds):
        d0 = ds[0]
        if all(d is d0 for d in ds):
            return d0
        out = {}
        for k in set().union(*ds):
            vs = [d.get(k, T.UNDEF) for d in ds]
            if k in ('$parent', '$caller'):
                out[k] = ('env', _FrozenEnv(self._join_dicts([v[1].d for v in vs if v[0] == 'env'])))
            else:
                out[k] = vs[0] if all(v == vs[0] for v in vs) else T.phi(vs)
        return out

    # ------------------------------------------------------------ blocks
    def block(self, body, states):
        out = Out()
        cur = states
        for st in body:
            if not cur:
                break
            o = self.stmt(st, cur)
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            cur = self.merge(o.normal)
        out.normal = cur
        if len(out.ret) > 1:
            out.ret = self.merge([s for s, _ in out.ret], [t for _, t in out.ret])
        out.brk = self.merge(out.brk)
        out.cont = self.merge(out.cont)
        return out

    def stmt(self, node, states):
        self.steps += len(states)
        if self.steps > self.max_steps:
            raise AnalysisBroken('step budget exceeded in %s' % self.frame.func.qualname)
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise AnalysisBroken('statement kind %s not supported at %s'
                                 % (type(node).__name__, self.loc(node)))
        out = Out()
        m(node, states, out)
        return out

    def s_Pass(self, n, sts, out):
        out.normal = sts
    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_ClassDef(self, n, sts, out):
        out.normal = [s.bind(n.name, ('localclass', n.name)) for s in sts]

    def s_FunctionDef(self, n, sts, out):
        key = ('closure', n.name, n.lineno, self.frame.ctx)
        for s in sts:
            self.closures[key] = (n, self.frame)
            out.normal.append(s.bind(n.name, key).put(('cenv', key), ('env', _FrozenEnv(s.env))))

    def s_Expr(self, n, sts, out):
        for s in sts:
            for s2, _ in self.eval(n.value, s):
                out.normal.append(s2)

    def s_Return(self, n, sts, out):
        for s in sts:
            if n.value is None:
                out.ret.append((s, T.NONE))
            else:
                out.ret += self.eval(n.value, s)

    def s_Raise(self, n, sts, out):
        for s in sts:
            if n.exc is None:
                e = s.env.get('$exc', ('exc', 'reraise'))
                s = self.client.on_raise(self, s, e, n)
                if s is not None:
                    self.excs.append((s, e))
                continue
            # evaluating the exception constructor is not itself a fault point
            save = self.excs
            self.excs = []
            vals = self.eval(n.exc, s)
            self.excs = save
            for s2, t in vals:
                s2 = self.client.on_raise(self, s2, t, n)
                if s2 is not None:
                    self.excs.append((s2, ('raised', t)))

    def s_Assert(self, n, sts, out):
        for s in sts:
            t, f = self.branch(n.test, s)
            out.normal += t
            for x in f:
                self.excs.append((x, ('raised', ('call', ('ext', 'AssertionError'), (), (), None))))

    def s_Delete(self, n, sts, out):
        for s in sts:
            cur = [s]
            for tg in n.targets:
                nxt = []
                for c in cur:
                    if isinstance(tg, ast.Name):
                        e = dict(c.env)
                        e.pop(tg.id, None)
                        nxt.append(c.w(env=e))
                    else:
                        for c2, cell in self.lval(tg, c):
                            r = self.client.on_store(self, c2, cell, ('deleted',), tg)
                            if r is not None:
                                nxt.append(r.put(cell, ('deleted',)))
                cur = nxt
            out.normal += cur

    def s_Assign(self, n, sts, out):
        for s in sts:
            for s2, v in self.eval(n.value, s):
                cur = [s2]
                for tg in n.targets:
                    cur = [x for c in cur for x in self.assign(tg, v, c, n)]
                out.normal += cur

    def s_AnnAssign(self, n, sts, out):
        if n.value is None:
            out.normal = sts
            return
        for s in sts:
            for s2, v in self.eval(n.value, s):
                out.normal += self.assign(n.target, v, s2, n)

    def s_AugAssign(self, n, sts, out):
        op = _OPS.get(type(n.op), '?')
        for s in sts:
            for s2, v in self.eval(n.value, s):
                if isinstance(n.target, ast.Name):
                    old = self.lookup(n.target.id, s2)
                    cell = ('local', n.target.id)
                    r = self.client.on_aug(self, s2, cell, old, op, v, n)
                    if r is not None:
                        out.normal.append(r if self.client.inplace(cell, old) else r.bind(n.target.id, mkbin(op, old, v)))
                else:
                    for s3, cell in self.lval(n.target, s2):
                        old = self.read(s3, cell, n)
                        r = self.client.on_aug(self, s3, cell, old, op, v, n)
                        if r is not None:
                            out.normal.append(r if self.client.inplace(cell, old) else r.put(cell, mkbin(op, old, v)))

    def assign(self, tg, v, s, node):
        if isinstance(tg, ast.Name):
            return [s.bind(tg.id, v)]
        if isinstance(tg, (ast.Tuple, ast.List)):
            cur = [s]
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    e, item = e.value, ('fresh', ('star', node.lineno))
                else:
                    item = self.item(v, i, s)
                cur = [x for c in cur for x in self.assign(e, item, c, node)]
            return cur
        res = []
        for s2, cell in self.lval(tg, s):
            r = self.client.on_store(self, s2, cell, v, node)
            if r is not None:
                res.append(r.put(cell, v))
        return res

    def item(self, v, i, s=None):
        if v[0] in ('tuple', 'list'):
            if i < len(v[1]):
                return v[1][i]
        if v[0] == 'phi':
            return T.phi([self.item(x, i, s) for x in v[1]])
        if v[0] == 'const' and isinstance(v[1], tuple) and i < len(v[1]):
            return ('const', v[1][i])
        return ('sub', v, ('const', i))

    def lval(self, tg, s):
        """-> [(state, cell term)]"""
        if isinstance(tg, ast.Attribute):
            return [(s2, ('attr', b, tg.attr)) for s2, b in self.eval(tg.value, s)]
        if isinstance(tg, ast.Subscript):
            r = []
            for s2, b in self.eval(tg.value, s):
                for s3, i in self.eval_slice(tg.slice, s2):
                    r.append((s3, mksub(b, i)))
            return r
        if isinstance(tg, ast.Starred):
            return self.lval(tg.value, s)
        if isinstance(tg, ast.Name):
            return [(s, ('local', tg.id))]
        raise AnalysisBroken('lvalue %s' % ast.dump(tg)[:60])

    def read(self, s, cell, node=None):
        v = self.client.on_load(self, s, cell, node)
        if v is not None:
            return v
        if cell in s.heap:
            return s.heap[cell]
        if cell[0] in ('attr', 'sub') and cell[1][0] == 'phi':
            vs = []
            for b in cell[1][1]:
                c2 = (cell[0], b, cell[2]) if cell[0] == 'attr' else mksub(b, cell[2])
                vs.append(self.read(s, c2, node))
            return T.phi(vs)
        if cell[0] == 'sub' and cell[1][0] in ('tuple', 'list') and cell[2][0] == 'const' \
                and isinstance(cell[2][1], int) and -len(cell[1][1]) <= cell[2][1] < len(cell[1][1]):
            return cell[1][1][cell[2][1]]
        return cell

    # ------------------------------------------------------------ control
    def s_If(self, n, sts, out):
        T_, F_ = [], []
        for s in sts:
            t, f = self.branch(n.test, s)
            T_ += t
            F_ += f
        T_, F_ = self.merge(T_), self.merge(F_)
        for states, body in ((T_, n.body), (F_, n.orelse)):
            if not states:
                continue
            o = self.block(body, states)
            out.normal += o.normal
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont

    def s_Break(self, n, sts, out):
        out.brk = sts

    def s_Continue(self, n, sts, out):
        out.cont = sts

    def s_While(self, n, sts, out):
        self.loop(n, sts, out, None)

    def s_For(self, n, sts, out):
        for s in sts:
            for s2, it in self.eval(n.iter, s):
                self.loop(n, [s2], out, it)

    def base_iter(self, it):
        while it[0] == 'call' and it[1][0] == 'ext' and it[1][1] in ('list', 'tuple', 'sorted', 'iter', 'six.iteritems', 'six.itervalues',
                                                                       'six.iterkeys', 'enumerate') and len(it[2]) == 1:
            it = it[2][0]
        if it[0] == 'call' and it[1][0] == 'attr' and not it[2] and it[1][2] in ('items', 'values', 'keys', 'iteritems', 'itervalues'):
            it = it[1][1]
        return it

    def filtered(self, s, conds, env):
        """an element of a filtered comprehension satisfies its filters"""
        cur = [s.w(env=dict(env))]
        save = self.excs
        self.excs = []
        for c in conds:
            cur = [t for x in cur for t in self.branch(c, x)[0]]
        self.excs = save
        return [x.w(env=s.env) for x in cur]

    def iter_key(self, it):
        """normal form of an iterable (strip copies)"""
        while it[0] == 'call' and it[1][0] == 'ext' and it[1][1] in (
                'list', 'tuple', 'sorted', 'iter') and len(it[2]) == 1:
            it = it[2][0]
        if it[0] == 'comp' and it[1] in ('list', 'gen') and len(it[3]) == 1 and not it[4]:
            return self.iter_key(it[3][0])
        return it

    def elem_of(self, it, s, depth=0):
        while it[0] == 'call' and it[1][0] == 'ext' and it[1][1] in ('list', 'tuple', 'sorted', 'iter') and len(it[2]) == 1:
            it = it[2][0]
        if it[0] == 'comp' and it[1] in ('list', 'gen', 'set'):
            return it[2]
        if it[0] == 'comp' and it[1] == 'dict':
            return it[2][1][0]
        it = self.iter_key(it)
        if it[0] == 'call':
            fn, args = it[1], it[2]
            if fn[0] == 'ext':
                nm = fn[1].split('.')[-1]
                if nm == 'enumerate' and args:
                    base = self.iter_key(args[0])
                    return ('tuple', (('idx', base), self.elem_of(args[0], s, depth)))
                if nm == 'zip':
                    return ('tuple', tuple(self.elem_of(a, s, depth) for a in args))
                if nm == 'range' and len(args) == 1:
                    a = args[0]
                    if a[0] == 'call' and a[1] == ('ext', 'len') and a[2]:
                        return ('idx', self.iter_key(a[2][0]))
                    return ('idx', ('upto', a))
                if nm == 'iteritems' and args:
                    k = self.elem_of(args[0], s, depth)
                    return ('tuple', (k, self.val_of(s, args[0], k)))
                if nm == 'itervalues' and args:
                    return self.val_of(s, args[0], self.elem_of(args[0], s, depth))
                if nm == 'iterkeys' and args:
                    return self.elem_of(args[0], s, depth)
                if nm == 'chain' and args and depth < 3:
                    return T.phi([self.elem_of(a, s, depth + 1) for a in args])
                if nm == 'reversed' and args:
                    return self.elem_of(args[0], s, depth)
            if fn[0] == 'attr' and not args:
                if fn[2] in ('items', 'iteritems'):
                    k = self.elem_of(fn[1], s, depth)
                    return ('tuple', (k, self.val_of(s, fn[1], k)))
                if fn[2] in ('values', 'itervalues'):
                    return self.val_of(s, fn[1], self.elem_of(fn[1], s, depth))
                if fn[2] in ('keys', 'iterkeys'):
                    return self.elem_of(fn[1], s, depth)
        if it[0] == 'phi':
            return T.phi([self.elem_of(x, s, depth + 1) for x in it[1]])
        if it[0] in ('tuple', 'list') and it[1]:
            return T.phi(list(it[1]))
        if it[0] == 'const' and isinstance(it[1], tuple) and it[1]:
            return T.phi([('const', x) for x in it[1]])
        items = s.heap.get(('items', it))
        if items:
            return T.phi(list(items))
        return ('elem', it)

    def val_of(self, s, d, k):
        if d[0] == 'comp' and d[1] == 'dict' and k == d[2][1][0]:
            return d[2][1][1]
        cells = [v for c, v in s.heap.items() if c[0] == 'sub' and c[1] == d]
        c = ('sub', d, k)
        if c in s.heap:
            return s.heap[c]
        if cells and d[0] in ('call', 'dict'):
            return T.phi(cells)
        return c

    def literal_items(self, it):
        """the elements of an iterable whose content is written in the source"""
        if it[0] in ('tuple', 'list') and it[1] and not any(x[0] == 'star' for x in it[1]):
            return list(it[1])
        if it[0] == 'const' and isinstance(it[1], tuple) and it[1]:
            return [('const', x) for x in it[1]]
        if it[0] == 'call' and it[1][0] == 'ext' and it[1][1].split('.')[-1] == 'enumerate' and len(it[2]) == 1:
            sub = self.literal_items(it[2][0])
            return None if sub is None else [('tuple', (('const', i), x)) for i, x in enumerate(sub)]
        return None

    def unrolled(self, n, sts, out, items):
        cur, ex = sts, []
        for el in items:
            nxt = []
            for s in cur:
                nxt += self.assign(n.target, el, s, n)
            nxt = self.merge(nxt)
            if not nxt:
                cur = []
                break
            o = self.block(n.body, nxt)
            out.exc += o.exc
            out.ret += o.ret
            ex += o.brk
            cur = self.merge(o.normal + o.cont)
        if n.orelse and cur:
            o = self.block(n.orelse, cur)
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            out.exc += o.exc
            cur = o.normal
        out.normal += self.merge(cur + ex)

    def loop(self, n, sts, out, it):
        is_for = it is not None
        ex = []
        ikey = self.iter_key(it) if is_for else None
        if is_for and ikey[0] == 'call':
            # iteritems(d), enumerate(d), d.items(), ... : emptiness is d's
            fn, args = ikey[1], ikey[2]
            if fn[0] == 'ext' and fn[1].split('.')[-1] in (
                    'iteritems', 'itervalues', 'iterkeys', 'enumerate', 'reversed') and args:
                ikey = self.iter_key(args[0])
            elif fn[0] == 'attr' and fn[2] in ('items', 'values', 'keys', 'iteritems',
                                               'itervalues') and not args:
                ikey = fn[1]
        if is_for and self.client.unroll:
            lit = self.literal_items(it)
            if lit is not None and len(lit) <= self.client.unroll:
                return self.unrolled(n, sts, out, lit)
        nonempty = ('nonempty', ikey) if is_for else None
        always = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and bool(n.test.value)

        entry = [self.client.on_loop_enter(self, s, n) for s in sts]
        entry = [s for s in entry if s is not None]
        heads = self.merge(entry)
        seen = set()
        assigned = _assigned(n)
        first = True
        passes = 0
        exits = []
        orig = {}
        if self.client.havoc_loops and self.client.generic_loops:
            before = heads
            heads = [self.havoc(s, assigned, n) for s in heads]
            for a, b in zip(before, heads):
                orig[id(b)] = a
        else:
            before = heads
        heads2 = [self.client.on_head(self, s, n, it) for s in heads]
        for a, b in zip(heads, heads2):
            orig[id(b)] = self.client.on_head(self, orig[id(a)], n, it) if id(a) in orig else b
        heads = heads2
        fresh_heads = heads
        base_env = {}
        base_heap = {}
        for s in heads:
            for k, v in s.env.items():
                base_env.setdefault(k, set()).add(v)
            for k, v in s.heap.items():
                base_heap.setdefault(k, set()).add(v)
        while fresh_heads and passes < (1 if self.client.generic_loops else self.client.loop_passes):
            passes += 1
            body_in = []
            for s in fresh_heads:
                if is_for:
                    known = s.fact(nonempty)
                    items = s.heap.get(('items', ikey))
                    if ikey[0] in ('tuple', 'list') and ikey[1]:
                        known = True
                    elif ikey[0] == 'const' and isinstance(ikey[1], tuple):
                        known = bool(ikey[1])
                    elif ikey[0] in ('list',) and not ikey[1] and items is None:
                        known = False
                    if first:
                        if known is not True:
                            z = orig.get(id(s), s)
                            z = z if known is False else z.w(facts=_with(z.facts, nonempty, False))
                            exits.append(z)
                        if known is False:
                            continue
                        s = s.w(facts=_with(s.facts, nonempty, True))
                    s = self.client.on_iter(self, s, n, it)
                    el = self.elem_of(it, s)
                    ss = self.assign(n.target, el, s, n)
                    for conds, env in self.compconds.get(self.base_iter(it), ()):
                        ss = [y for x in ss for y in self.filtered(x, conds, env)]
                    body_in += ss
                else:
                    t, f = self.branch(n.test, s)
                    if not always:
                        exits += f
                    body_in += t
            body_in = self.merge(body_in)
            if not body_in:
                break
            self.frame.loops.append(n)
            o = self.block(n.body, body_in)
            self.frame.loops.pop()
            out.ret += o.ret
            ex += o.brk
            back = self.merge(o.normal + o.cont)
            nxt = []
            for s in back:
                s = self.client.on_loop_back(self, s, n)
                if s is None:
                    continue
                if self.client.generic_loops:
                    if is_for:
                        exits.append(s)
                    else:
                        # leave through the negated test when it may be false
                        s1 = self.client.on_head(self, self.widen(s, base_env, base_heap, assigned, n), n, it)
                        t, f = self.branch(n.test, s1)
                        if not f and not always:
                            # certainly another iteration: leave after that, with what the body changes unknown again
                            lid = (n.lineno, self.frame.ctx, 'later')
                            env = {k: ('mu', lid, k) if k in assigned and v[0] == 'const' else v for k, v in s1.env.items()}
                            t, f = self.branch(n.test, s1.w(env=env))
                        exits += f
                    continue
                s1 = self.widen(s, base_env, base_heap, assigned, n)
                k = (self.key(s1), tuple(sorted(((a, b) for a, b in s1.env.items()
                                                 if a in assigned), key=repr)))
                if k in seen:
                    continue
                seen.add(k)
                nxt.append(s1)
            if is_for and not self.client.generic_loops:
                exits += nxt
            fresh_heads = self.merge(nxt)
            first = False
        if fresh_heads and not is_for and not always and not self.client.generic_loops:
            for s in fresh_heads:
                t, f = self.branch(n.test, s)
                exits += f
        exits = [self.client.on_loop_exit(self, s, n) for s in exits]
        exits = self.merge([s for s in exits if s is not None])
        if n.orelse and exits:
            o = self.block(n.orelse, exits)
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            exits = o.normal
        ex = [self.client.on_loop_exit(self, s, n) for s in ex]
        out.normal += self.merge(exits + [s for s in ex if s is not None])

    def havoc(self, s, assigned, node):
        """constants that the loop body changes are unknown in a generic iteration"""
        lid = (node.lineno, self.frame.ctx)
        env = dict(s.env)
        live = _carried(node)
        kept = {x.id for x in live if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        for k in assigned:
            if k in env and env[k][0] == 'const' and k in kept:
                env[k] = ('mu', lid, k)
        if self.client.havoc_containers:
            for b in node.body:
                for x in ast.walk(b):
                    k = None
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr in GROW:
                        k = x.value.id
                    elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        k = x.value.id
                    if k in env and (env[k][0] in ('list', 'dict', 'const', 'tuple', 'set') or env[k][0] == 'call' and env[k][1][0] == 'ext' and env[k][1][1].split('.')[-1] in ('OrderedDict', 'dict', 'set', 'list') and env[k][2]):
                        env[k] = ('mu', lid, k)
        attrs = set()
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                            attrs.add((t.value.id, t.attr))
        heap = dict(s.heap)
        for nm, a in attrs:
            base = env.get(nm)
            c = ('attr', base, a)
            if base is not None and c in heap and heap[c][0] == 'const':
                heap[c] = ('mu', lid, c)
        return s.w(env=env, heap=heap)

    def widen(self, s, base_env, base_heap, assigned, node):
        lid = (node.lineno, self.frame.ctx)
        env = dict(s.env)
        for k, v in s.env.items():
            if k == '$parent' or k.startswith('$'):
                continue
            b = base_env.get(k)
            if b is not None and v in b:
                continue
            if v[0] == 'const' and (v[1] is None or isinstance(v[1], (bool, str))):
                continue
            if v[0] == 'closure' or self.client.nowiden(v):
                continue
            if b is None and k not in assigned:
                continue
            env[k] = ('mu', lid, k)
        heap = dict(s.heap)
        for k, v in s.heap.items():
            if k[0] in ('items', 'cenv'):
                continue
            b = base_heap.get(k)
            if v == k or self.client.nowiden(v):
                continue
            if b is not None and v in b:
                continue
            if v[0] == 'const' and (v[1] is None or isinstance(v[1], (bool, str))):
                continue
            if T.size(v) > 12 or b is not None or T.contains(v, lambda x: x == k):
                heap[k] = ('mu', lid, k)
        facts = {}
        for k, v in s.facts.items():
            if k[0] == 'nonempty':
                facts[k] = v
            elif not self._loop_dep(k, env, s, lid, node):
                facts[k] = v
        return State(env, heap, facts, s.auto, s.trail)

    def _loop_dep(self, t, env, s, lid, node):
        lo, hi = node.lineno, getattr(node, 'end_lineno', node.lineno)

        def p(x):
            if x[0] == 'mu' and x[1] == lid:
                return True
            if x[0] in ('elem', 'idx') and not self.client.generic_loops:
                return True
            if x[0] == 'call' and x[4] is not None:
                ctx, ln = x[4][0], x[4][1]
                fc = self.frame.ctx
                if ctx == fc:
                    return lo <= ln <= hi
                if ctx[:len(fc)] == fc and len(ctx) > len(fc):
                    return lo <= ctx[len(fc)][0] <= hi
            return False
        return T.contains(t, p)

    # ------------------------------------------------------------ try/with
    def s_Try(self, n, sts, out):
        save = self.excs
        self.excs = []
        if n.handlers:
            for s in sts:
                if self._implicit_fault(n) and self.client.implicit_fault(self, s, n):
                    self.excs.append((s, ('exc', 'implicit')))
        o = self.block(n.body, sts)
        body_exc = self._merge_exc(self.excs)
        self.excs = []
        res = Out()
        if n.orelse and o.normal:
            o2 = self.block(n.orelse, o.normal)
            res.normal += o2.normal
            res.ret += o2.ret
            res.brk += o2.brk
            res.cont += o2.cont
        else:
            res.normal += o.normal
        res.ret += o.ret
        res.brk += o.brk
        res.cont += o.cont
        # handlers
        pend = body_exc
        for h in n.handlers:
            nxt = []
            hin = []
            for s, e in pend:
                m = self.matches(e, h)
                if m is not False:
                    s2 = s.bind('$exc', e)
                    if h.name:
                        s2 = s2.bind(h.name, e)
                    s2 = self.client.on_handler(self, s2, e, h) if hasattr(self.client, 'on_handler') else s2
                    if s2 is not None:
                        hin.append(s2)
                if m is not True:
                    nxt.append((s, e))
            pend = nxt
            if hin:
                oh = self.block(h.body, self.merge(hin))
                res.normal += oh.normal
                res.ret += oh.ret
                res.brk += oh.brk
                res.cont += oh.cont
        res_exc = pend + self.excs
        self.excs = save
        self.run_finally(n.finalbody, res, res_exc, out)

    def run_finally(self, fin, res, res_exc, out):
        if not fin:
            out.normal += res.normal
            out.ret += res.ret
            out.brk += res.brk
            out.cont += res.cont
            self.excs += res_exc
            return
        for kind in ('normal', 'brk', 'cont'):
            ss = self.merge(getattr(res, kind))
            if ss:
                o = self.block(fin, ss)
                getattr(out, kind).extend(o.normal)
                out.ret += o.ret
                if kind != 'brk':
                    out.brk += o.brk
                if kind != 'cont':
                    out.cont += o.cont
        for s, t in res.ret:
            o = self.block(fin, [s])
            out.ret += [(x, t) for x in o.normal] + o.ret
        for s, e in self._merge_exc(res_exc):
            o = self.block(fin, [s])
            self.excs += [(x, e) for x in o.normal]
            out.ret += o.ret

    def _merge_exc(self, pairs):
        groups = {}
        order = []
        for s, e in pairs:
            k = (self.client.autokey(s.auto), frozenset(s.facts.items()), e if e[0] == 'raised' else e[0],
                 tuple(sorted(((a, b) for a, b in s.env.items() if b[0] == 'const'
                               and (b[1] is None or isinstance(b[1], (bool, str)))), key=repr)))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, e))
        if len(order) > 3 * self.client.max_states:
            g2, o2 = {}, []
            for s, e in pairs:
                k = (self.client.autokey(s.auto), e[0])
                if k not in g2:
                    g2[k] = []
                    o2.append(k)
                g2[k].append((s, e))
            groups, order = g2, o2
        return [(self.join([s for s, _ in groups[k]]), groups[k][0][1]) for k in order]

    def _implicit_fault(self, n):
        for h in n.handlers:
            names = self.handler_names(h)
            if names is None:
                return True
            for x in names:
                if x in ('KeyError', 'IndexError', 'AttributeError', 'TypeError', 'ValueError',
                         'ImportError', 'Exception', 'BaseException', 'ZeroDivisionError', 'NameError'):
                    return True
        return False

    def handler_names(self, h):
        if h.type is None:
            return None
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [(dotted(e) or '?').split('.')[-1] for e in els]

    def matches(self, e, h):
        names = self.handler_names(h)
        if names is None or 'BaseException' in names:
            return True
        if e[0] == 'raised':
            t = e[1]
            nm = None
            if t[0] == 'call':
                f = t[1]
                if f[0] == 'ext':
                    nm = f[1].split('.')[-1]
                elif f[0] == 'class':
                    nm = f[1].split(':')[-1]
            elif t[0] == 'ext':
                nm = t[1].split('.')[-1]
            elif t[0] == 'class':
                nm = t[1].split(':')[-1]
            if nm is None:
                return True if 'Exception' in names else None
            if nm in names:
                return True
            if nm in ('SystemExit', 'KeyboardInterrupt', 'GeneratorExit'):
                return False
            if 'Exception' in names:
                return True
            import builtins
            c = getattr(builtins, nm, None)
            for x in names:
                d = getattr(builtins, x, None)
                if isinstance(c, type) and isinstance(d, type) and issubclass(c, d):
                    return True
            if self.repo.has_cls(nm):
                for k in self.repo.mro(self.repo.cls(nm)):
                    if k.name in names or any(b in names for b in k.ext_bases):
                        return True
            return False
        if 'Exception' in names:
            return True      # faults of opaque calls are ordinary exceptions
        return None

    def s_With(self, n, sts, out):
        self.with_items(n, list(n.items), sts, out)

    def with_items(self, n, items, sts, out):
        if not items:
            o = self.block(n.body, sts)
            out.normal += o.normal
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            return
        item, rest = items[0], items[1:]
        for s in sts:
            for s2, t in self.eval(item.context_expr, s):
                h = self.client.on_with(self, s2, t, item)
                if h is None:
                    cm = self.contextmanager(t)
                    if cm is not None:
                        self.with_generator(n, cm, t, item, rest, s2, out)
                        continue
                    h = self.with_class(t, s2)
                enter = h.get('enter') if h else None
                exit_ = h.get('exit') if h else None
                ent = enter(s2) if enter else [(s2, ('entered', t))]
                if not isinstance(ent, list):
                    ent = [(ent, ('entered', t))]
                cur = []
                for s3, v in ent:
                    if item.optional_vars is not None:
                        cur += self.assign(item.optional_vars, v, s3, n)
                    else:
                        cur.append(s3)
                save = self.excs
                self.excs = []
                res = Out()
                self.with_items(n, rest, cur, res)
                exc = self.excs
                self.excs = save

                def ap(x, kind):
                    if exit_ is None:
                        return [x]
                    r = exit_(x, kind)
                    return r if isinstance(r, list) else ([] if r is None else [r])
                for kind in ('normal', 'brk', 'cont'):
                    for x in self.merge(getattr(res, kind)):
                        getattr(out, kind).extend(ap(x, kind))
                for x, v in res.ret:
                    out.ret += [(y, v) for y in ap(x, 'ret')]
                for x, e in self._merge_exc(exc):
                    self.excs += [(y, e) for y in ap(x, 'exc')]

    def with_class(self, t, s):
        """inline __enter__/__exit__ of a repo class when the type is known"""
        cls = None
        if t[0] == 'call' and t[1][0] == 'class':
            cls = self.find_class(t[1])
        cls = cls or self.types.get(t) or self.client.typeof(self, t)
        if cls is None:
            return None
        en, exi = self.repo.method(cls, '__enter__'), self.repo.method(cls, '__exit__')
        if not en or not exi:
            return None

        def enter(st):
            return self.inline_call(en, t, cls, (), (), st, en.node)

        def exit_(st, kind):
            a = (T.NONE, T.NONE, T.NONE) if kind != 'exc' else (('exc', 't'), ('exc', 'v'), ('exc', 'tb'))
            return [x for x, _ in self.inline_call(exi, t, cls, a, (), st, exi.node)]
        return {'enter': enter, 'exit': exit_}

    def contextmanager(self, t):
        if t[0] != 'call':
            return None
        f, st, cls = self.resolve(t[1])
        if f is None:
            return None
        for d in f.node.decorator_list:
            if (dotted(d) or '').split('.')[-1] == 'contextmanager':
                return f, st, cls
        return None

    def with_generator(self, n, cm, t, item, rest, s, out):
        """interpret the generator body; at its `yield` run the with-body"""
        f, self_term, cls = cm
        user = Out()

        def at_yield(st, val):
            callee_env = st.env
            caller = st.w(env=st.env['$caller'][1].d)
            fr = self.frames.pop()
            save = self.excs
            self.excs = []
            cur = self.assign(item.optional_vars, val, caller, n) if item.optional_vars is not None else [caller]
            res = Out()
            self.with_items(n, rest, cur, res)
            ex = self.excs
            self.excs = save
            self.frames.append(fr)
            back = []
            for kind in ('normal', 'brk', 'cont'):
                for x in getattr(res, kind):
                    e = dict(callee_env)
                    e['$caller'] = ('env', _FrozenEnv(x.env))
                    e['$kind'] = ('const', kind)
                    back.append(x.w(env=e))
            for x, v in res.ret:
                e = dict(callee_env)
                e['$caller'] = ('env', _FrozenEnv(x.env))
                e['$kind'] = ('const', 'ret')
                e['$retv'] = v
                back.append(x.w(env=e))
            for x, v in self._merge_exc(ex):
                e = dict(callee_env)
                e['$caller'] = ('env', _FrozenEnv(x.env))
                self.excs.append((x.w(env=e), v))
            return back
        env = self.bind_args(f, self_term, t[2], t[3])
        env['$caller'] = ('env', _FrozenEnv(s.env))
        fr = Frame(f, self_term, cls, self.frame.ctx + ((n.lineno, n.col_offset),))
        fr.yield_k = at_yield
        self.frames.append(fr)
        save = self.excs
        self.excs = []
        o = self.block(f.node.body, [s.w(env=env)])
        ex = self.excs
        self.excs = save
        self.frames.pop()
        for x in o.normal + [y for y, _ in o.ret]:
            c = x.env.get('$caller', ('env', _FrozenEnv(s.env)))[1].d
            kind = x.env.get('$kind', ('const', 'normal'))[1]
            rv = x.env.get('$retv', T.NONE)
            y = x.w(env=dict(c))
            if kind == 'ret':
                out.ret.append((y, rv))
            else:
                getattr(out, kind).append(y)
        for x, e in ex:
            c = x.env.get('$caller', ('env', _FrozenEnv(s.env)))[1].d
            self.excs.append((x.w(env=dict(c)), e))

    # ------------------------------------------------------------ conditions
    def branch(self, node, s):
        """-> (true states, false states)"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur, other = [s], []
            for v in node.values:
                nt, nf = [], []
                for c in cur:
                    t, f = self.branch(v, c)
                    nt += t
                    nf += f
                if is_and:
                    other += nf
                    cur = self.merge(nt)
                else:
                    other += nt
                    cur = self.merge(nf)
            other = self.merge(other)
            return (cur, other) if is_and else (other, cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.branch(node.operand, s)
            return f, t
        T_, F_ = [], []
        for s2, t in self.eval(node, s):
            for a in self.cond_alts(t):
                s3 = s2 if a == t else self.narrow(s2, t, a)
                ts, fs = self.decide(s3, a, node)
                T_ += ts
                F_ += fs
        return T_, F_

    def narrow(self, s, old, new):
        """the value known as phi term `old` turned out to be `new`: rebind its names"""
        if old[0] != 'phi':
            return s
        env = s.env
        for k, v in s.env.items():
            if v == old and not k.startswith('$'):
                if env is s.env:
                    env = dict(env)
                env[k] = new
        return s if env is s.env else s.w(env=env)

    def cond_alts(self, t):
        if t[0] == 'phi' and any(x[0] == 'const' for x in t[1]):
            consts = [x for x in t[1] if x[0] == 'const']
            rest = [x for x in t[1] if x[0] != 'const']
            return consts + ([T.phi(rest)] if rest else [])
        return [t]

    def decide(self, s, t, node):
        pol = True
        while t[0] == 'un' and t[1] == 'not':
            t, pol = t[2], not pol
        if t[0] in ('and', 'or'):
            # value-form boolean: decide operand by operand
            cur, other = [s], []
            for v in t[1]:
                nt, nf = [], []
                for c in cur:
                    a, b = self.decide(c, v, node)
                    nt += a
                    nf += b
                if t[0] == 'and':
                    other += nf
                    cur = nt
                else:
                    other += nt
                    cur = nf
            r = (cur, other) if t[0] == 'and' else (other, cur)
            return r if pol else (r[1], r[0])
        v = self.truth(s, t)
        if v is None:
            v = self.client.assume(t)
            if v is None and t[0] == 'global' and t[2] == 'trace':
                v = False
        res = []
        for val in (True, False):
            if v is not None and v != val:
                res.append([])
                continue
            s2 = s if v is not None else s.w(facts=_with(s.facts, t, val))
            if v is None and t[0] in ('is', 'eq') and t[1][0] == 'phi' and t[2][0] == 'const':
                keep = [a for a in t[1][1] if self.truth(s, (t[0], a, t[2])) is not (not val)]
                if not keep:
                    res.append([])
                    continue
                new = T.phi(keep)
                if new != t[1]:
                    s2 = self.narrow(s2, t[1], new)
                if new[0] != 'phi' and new[0] != 'top':
                    s2 = s2.w(facts=_with(s2.facts, (t[0], new, t[2]), val))
            s2 = self.client.on_branch(self, s2, t, val, node)
            res.append([s2] if s2 is not None else [])
        return (res[0], res[1]) if pol else (res[1], res[0])

    def truth(self, s, t):
        if t[0] == 'const':
            return bool(t[1])
        if t in s.facts:
            return s.facts[t]
        if t[0] == 'un' and t[1] == 'not':
            v = self.truth(s, t[2])
            return None if v is None else (not v)
        if t[0] in ('tuple', 'list', 'set') and t[1]:
            return True
        if t[0] in ('list', 'dict', 'set') and not t[1] and ('items', t) not in s.heap \
                and not any(c[0] == 'sub' and c[1] == t for c in s.heap):
            return False
        if t[0] in ('closure', 'func', 'class', 'lambda'):
            return True
        if t[0] in ('lt', 'le'):
            d = ('le' if t[0] == 'lt' else 'lt', t[2], t[1])
            if d in s.facts:
                return not s.facts[d]
            if t[1][0] == 'const' and t[2][0] == 'const':
                try:
                    return t[1][1] < t[2][1] if t[0] == 'lt' else t[1][1] <= t[2][1]
                except TypeError:
                    return None
            if t[0] == 'le' and s.facts.get(('lt', t[1], t[2])) is True:
                return True
            if t[0] == 'lt' and s.facts.get(('le', t[1], t[2])) is False:
                return False
            for num, val in self._bounds(s, t):
                return val
        if t[0] == 'call' and t[1] == ('ext', 'isinstance') and len(t[2]) == 2:
            if s.facts.get(('is', t[2][0], T.NONE)) is True or t[2][0] == T.NONE:
                return False
        if t[0] in ('is', 'eq') and t[1][0] == 'phi' and t[2][0] == 'const':
            vs = {self.truth(s, (t[0], a, t[2])) for a in t[1][1]}
            if len(vs) == 1:
                return vs.pop()
        if t[0] == 'is':
            if t[1] == t[2]:
                return True
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if b[0] == 'const':
                    if a[0] == 'const':
                        return a[1] is b[1] or (type(a[1]) is type(b[1]) and a[1] == b[1])
                    if a[0] in ('list', 'dict', 'tuple', 'closure', 'func', 'class', 'lambda',
                                'bin', 'lt', 'le', 'fstr', 'set', 'comp', 'self'):
                        return False
                    if b[1] is None and s.facts.get(a) is True:
                        return False
                    if b[1] is None and a[0] == 'call' and a[1][0] == 'class':
                        return False
                    if b[1] is None and a[0] == 'call' and a[1][0] == 'attr' and \
                            a[1][2] in ('flatten', 'astype', 'copy', 'ravel', 'reshape'):
                        return False
                    if b[1] is None and a[0] == 'call' and a[1][0] == 'ext' and \
                            a[1][1] in ('float', 'int', 'str', 'len', 'list', 'dict', 'tuple', 'set'):
                        return False
                    if b[1] is None:
                        for f, v in s.facts.items():
                            if v and f[0] == 'call' and f[1] == ('ext', 'isinstance') and f[2] and f[2][0] == a:
                                return False
        if t[0] == 'eq':
            if t[1] == t[2]:
                return True
            if t[1][0] == 'const' and t[2][0] == 'const':
                return t[1][1] == t[2][1]
            # x == 'a' known true -> x == 'b' false
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if b[0] == 'const':
                    for f, v in s.facts.items():
                        if v and f[0] == 'eq':
                            for c, d in ((f[1], f[2]), (f[2], f[1])):
                                if c == a and d[0] == 'const' and d[1] != b[1]:
                                    return False
        if t[0] == 'in' and t[2][0] in ('tuple', 'list') and t[1][0] == 'const' \
                and all(x[0] == 'const' for x in t[2][1]):
            return t[1][1] in [x[1] for x in t[2][1]]
        if t[0] == 'call' and t[1] == ('ext', 'len') and len(t[2]) == 1:
            return s.facts.get(('nonempty', self.iter_key(t[2][0])))
        if ('nonempty', t) in s.facts:
            return s.facts[('nonempty', t)]
        if s.facts.get(('is', t, T.NONE)) is True or s.facts.get(('is', T.NONE, t)) is True:
            return False
        return None

    def _bounds(self, s, t):
        # numeric facts about the same term against constants: x<=1 known etc.
        x, y = t[1], t[2]
        if y[0] == 'const' and isinstance(y[1], (int, float)):
            for f, v in s.facts.items():
                if f[0] in ('lt', 'le') and f[1] == x and f[2][0] == 'const' \
                        and isinstance(f[2][1], (int, float)):
                    if v and (f[2][1] < y[1]):
                        yield None, True
                        return
                    if not v and f[2][1] > y[1]:
                        yield None, False
                        return
                if f[0] in ('lt', 'le') and f[2] == x and f[1][0] == 'const' \
                        and isinstance(f[1][1], (int, float)):
                    if v and f[1][1] > y[1]:
                        yield None, False
                        return
        if x[0] == 'const' and isinstance(x[1], (int, float)):
            for f, v in s.facts.items():
                if f[0] in ('lt', 'le') and f[2] == y and f[1][0] == 'const' \
                        and isinstance(f[1][1], (int, float)):
                    if v and f[1][1] > x[1]:
                        yield None, True
                        return
                    if not v and f[1][1] < x[1]:
                        yield None, False
                        return

    # ------------------------------------------------------------ expressions
    def lookup(self, name, s):
        env = s.env
        n = 0
        while env is not None and n < 8:
            if name in env:
                return env[name]
            p = env.get('$parent')
            env = p[1].d if p else None
            n += 1
        return self.global_name(name, self.frame.func.module)

    def global_name(self, name, mod):
        r = self.repo.resolve_name(mod, name)
        if isinstance(r, ClassInfo):
            return ('class', '%s:%s' % (r.module.name, r.name))
        if isinstance(r, Func):
            return ('func', '%s:%s' % (r.module.name, r.node.name))
        if isinstance(r, Module):
            return ('module', r.name)
        if isinstance(r, str):
            m, _, last = r.rpartition('.')
            if m in self.repo.modules:
                mm = self.repo.modules[m]
                if last in mm.assigns:
                    return self._modconst(mm, last)
            return ('ext', r)
        if name in mod.assigns:
            return self._modconst(mod, name)
        if name in BUILTINS:
            if name in ('True', 'False', 'None'):
                return ('const', {'True': True, 'False': False, 'None': None}[name])
            return ('ext', name)
        return ('global', mod.name, name)

    def _modconst(self, mod, name):
        v = mod.assigns[name]
        if isinstance(v, ast.Constant) and not isinstance(v.value, bool) and v.value is not None:
            n = sum(1 for st in ast.walk(mod.tree) if isinstance(st, ast.Assign)
                    and any(isinstance(t, ast.Name) and t.id == name for t in st.targets))
            if n == 1:
                return ('const', v.value)
        return ('global', mod.name, name)

    def eval_slice(self, node, s):
        if isinstance(node, ast.Slice):
            parts = [node.lower, node.upper, node.step]
            res = [(s, ())]
            for p in parts:
                nr = []
                for st, acc in res:
                    if p is None:
                        nr.append((st, acc + (T.NONE,)))
                    else:
                        nr += [(a, acc + (b,)) for a, b in self.eval(p, st)]
                res = nr
            return [(st, ('slice',) + acc) for st, acc in res]
        if isinstance(node, ast.Tuple):
            res = [(s, ())]
            for p in node.elts:
                res = [(a, acc + (b,)) for st, acc in res for a, b in self.eval_slice(p, st)]
            return [(st, ('tuple', acc)) for st, acc in res]
        if node.__class__.__name__ == 'Index':
            return self.eval_slice(node.value, s)
        return self.eval(node, s)

    def eval(self, node, s):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return [(s, ('fresh', (type(node).__name__, getattr(node, 'lineno', 0))))]
        return m(node, s)

    def e_Constant(self, n, s):
        v = n.value
        if v is Ellipsis:
            return [(s, ('ext', 'Ellipsis'))]
        return [(s, ('const', v))]

    def e_Name(self, n, s):
        return [(s, self.lookup(n.id, s))]

    def e_Attribute(self, n, s):
        r = []
        for s2, b in self.eval(n.value, s):
            if b[0] == 'module':
                r.append((s2, self.global_name(n.attr, self.repo.modules[b[1]])))
                continue
            if b[0] == 'ext':
                r.append((s2, ('ext', b[1] + '.' + n.attr)))
                continue
            cls = self.class_of(b)
            if cls is not None and ('attr', b, n.attr) not in s2.heap:
                f = self.repo.method(cls, n.attr)
                if f and any(dotted(d) == 'property' for d in f.node.decorator_list):
                    r += self.call(s2, ('attr', b, n.attr), (), (), n, prop=True)
                    continue
            r.append((s2, self.read(s2, ('attr', b, n.attr), n)))
        return r

    def e_Subscript(self, n, s):
        r = []
        for s2, b in self.eval(n.value, s):
            for s3, i in self.eval_slice(n.slice, s2):
                r.append((s3, self.read(s3, mksub(b, i), n)))
        return r

    def evals(self, nodes, s):
        res = [(s, ())]
        for p in nodes:
            nr = []
            for st, acc in res:
                if isinstance(p, ast.Starred):
                    nr += [(a, acc + (('star', b),)) for a, b in self.eval(p.value, st)]
                else:
                    nr += [(a, acc + (b,)) for a, b in self.eval(p, st)]
            res = nr
        return res

    def e_Tuple(self, n, s):
        return [(a, ('tuple', b)) for a, b in self.evals(n.elts, s)]

    def e_List(self, n, s):
        r = []
        for a, b in self.evals(n.elts, s):
            t = ('list', b)
            if not b:
                t = ('list', (), (n.lineno, n.col_offset, self.frame.ctx))
            r.append((a, t))
        return r

    def e_Set(self, n, s):
        return [(a, ('set', b)) for a, b in self.evals(n.elts, s)]

    def e_Dict(self, n, s):
        keys = [k for k in n.keys if k is not None]
        r = []
        for s2, ks in self.evals(keys, s):
            for s3, vs in self.evals(n.values, s2):
                t = ('dict', (n.lineno, n.col_offset, self.frame.ctx))
                for k, v in zip(ks, vs):
                    s3 = s3.put(('sub', t, k), v)
                r.append((s3, t))
        return r

    def e_JoinedStr(self, n, s):
        vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        return [(a, ('fstr', b)) for a, b in self.evals(vals, s)]

    def e_BinOp(self, n, s):
        op = _OPS.get(type(n.op), '?')
        return [(a, mkbin(op, v[0], v[1])) for a, v in self.evals([n.left, n.right], s)]

    def e_UnaryOp(self, n, s):
        op = {ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
        r = []
        for a, v in self.eval(n.operand, s):
            if op == '-' and v[0] == 'const' and isinstance(v[1], (int, float)):
                r.append((a, ('const', -v[1])))
            elif op == 'not' and v[0] == 'const':
                r.append((a, ('const', not v[1])))
            elif op == 'not' and v[0] == 'un' and v[1] == 'not':
                r.append((a, v[2]))
            else:
                r.append((a, ('un', op, v)))
        return r

    def e_BoolOp(self, n, s):
        # value context: fork on operands that contain calls, keep a value term otherwise
        if any(isinstance(x, ast.Call) for v in n.values[1:] for x in ast.walk(v)):
            is_and = isinstance(n.op, ast.And)
            res, cur = [], [s]
            for i, v in enumerate(n.values):
                nxt = []
                for c in cur:
                    for s2, t in self.eval(v, c):
                        if i == len(n.values) - 1:
                            res.append((s2, t))
                            continue
                        ts, fs = self.decide(s2, t, v)
                        done, go = (fs, ts) if is_and else (ts, fs)
                        res += [(x, self._after(t, not is_and)) for x in done]
                        nxt += go
                cur = nxt
            return res
        op = 'and' if isinstance(n.op, ast.And) else 'or'
        r = []
        for a, vs in self.evals(n.values, s):
            keep = []
            final = None
            for v in vs:
                tv = self.truth(a, v)
                if tv is not None:
                    if (op == 'and') == tv:
                        continue
                    final = v
                    break
                keep.append(v)
            if final is not None and not keep:
                r.append((a, final))
            else:
                if final is not None:
                    keep.append(final)
                if not keep:
                    r.append((a, vs[-1]))
                elif len(keep) == 1:
                    r.append((a, keep[0]))
                else:
                    r.append((a, (op, tuple(keep))))
        return r

    def _after(self, t, val):
        if t[0] in ('lt', 'le', 'eq', 'is', 'in') or (t[0] == 'un' and t[1] == 'not'):
            return ('const', val)
        return t

    def e_IfExp(self, n, s):
        t, f = self.branch(n.test, s)
        r = []
        for x in t:
            r += self.eval(n.body, x)
        for x in f:
            r += self.eval(n.orelse, x)
        return r

    def e_Compare(self, n, s):
        r = []
        for a, vs in self.evals([n.left] + n.comparators, s):
            parts = []
            for i, op in enumerate(n.ops):
                parts.append(mkcmp(op, vs[i], vs[i + 1]))
            if len(parts) == 1:
                t = parts[0]
                v = self.truth(a, t) if t[0] in ('is', 'eq', 'lt', 'le', 'in') else None
                if v is not None and t not in a.facts and t[0] != 'in' and \
                        (t[1][0] == 'const' and t[2][0] == 'const'):
                    t = ('const', v)
                r.append((a, t))
            else:
                r.append((a, ('and', tuple(parts))))
        return r

    def e_Lambda(self, n, s):
        key = ('lambda', n.lineno, n.col_offset, self.frame.ctx)
        self.closures[key] = (n, self.frame)
        return [(s.put(('cenv', key), ('env', _FrozenEnv(s.env))), key)]

    def _comp(self, n, s, elts, kind):
        cur = [s]
        its = []
        for g in n.generators:
            nxt = []
            for c in cur:
                for s2, it in self.eval(g.iter, c):
                    its.append(it)
                    for s3 in self.assign(g.target, self.elem_of(it, s2), s2, g.target):
                        ss = [s3]
                        for cond in g.ifs:
                            ss2 = []
                            for x in ss:
                                for y, _ in self.eval(cond, x):
                                    ss2.append(y)
                            ss = ss2
                        nxt += ss
            cur = nxt
        r = []
        for c in cur:
            for s2, vs in self.evals(elts, c):
                e = dict(s2.env)
                conds = [c0 for g in n.generators for c0 in g.ifs]
                if conds:
                    v = vs[0] if kind != 'dict' else ('tuple', vs)
                    self.allconds.setdefault(('comp', kind, v, tuple(its), True), {})[id(n)] = conds
                    self.compconds[('comp', kind, v, tuple(its), True)] = [(conds, dict(s2.env))]
                    self.compenvs.setdefault(('comp', kind, v, tuple(its), True), {})[id(n)] = (conds, dict(s2.env))
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            if x.id in s.env:
                                e[x.id] = s.env[x.id]
                            else:
                                e.pop(x.id, None)
                r.append((s2.w(env=e), vs, tuple(its)))
        return r

    def e_ListComp(self, n, s):
        return [(a, ('comp', 'list', v[0], its, bool(any(g.ifs for g in n.generators))))
                for a, v, its in self._comp(n, s, [n.elt], 'list')]

    def e_SetComp(self, n, s):
        return [(a, ('comp', 'set', v[0], its, bool(any(g.ifs for g in n.generators))))
                for a, v, its in self._comp(n, s, [n.elt], 'set')]

    def e_GeneratorExp(self, n, s):
        return [(a, ('comp', 'gen', v[0], its, bool(any(g.ifs for g in n.generators))))
                for a, v, its in self._comp(n, s, [n.elt], 'gen')]

    def e_DictComp(self, n, s):
        return [(a, ('comp', 'dict', ('tuple', v), its, bool(any(g.ifs for g in n.generators))))
                for a, v, its in self._comp(n, s, [n.key, n.value], 'dict')]

    def e_Starred(self, n, s):
        return self.eval(n.value, s)

    def e_Yield(self, n, s):
        vals = self.eval(n.value, s) if n.value is not None else [(s, T.NONE)]
        fr = self.frame
        r = []
        for s2, v in vals:
            if fr.yield_k is not None:
                for s3 in fr.yield_k(s2, v):
                    r.append((s3, T.NONE))
            else:
                s3 = self.client.on_yield_val(self, s2, n, v)
                if s3 is not None:
                    self.excs.append((s3, ('exc', 'yield')))
                    r.append((s3, ('fresh', ('yield', n.lineno))))
        return r

    def e_NamedExpr(self, n, s):
        r = []
        for a, v in self.eval(n.value, s):
            for b in self.assign(n.target, v, a, n):
                r.append((b, v))
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, n, s):
        r = []
        for s2, fn in self.eval_callee(n.func, s):
            for s3, args in self.evals(n.args, s2):
                kws = [k.value for k in n.keywords]
                for s4, kv in self.evals(kws, s3):
                    kwargs = tuple((k.arg or '**', v) for k, v in zip(n.keywords, kv))
                    r += self.call(s4, fn, args, kwargs, n)
        return r

    def eval_callee(self, f, s):
        if isinstance(f, ast.Attribute):
            out = []
            for s2, b in self.eval(f.value, s):
                if b[0] == 'module':
                    out.append((s2, self.global_name(f.attr, self.repo.modules[b[1]])))
                elif b[0] == 'ext':
                    out.append((s2, ('ext', b[1] + '.' + f.attr)))
                else:
                    out.append((s2, s2.heap.get(('attr', b, f.attr), ('attr', b, f.attr))))
            return out
        return self.eval(f, s)

    def class_of(self, t):
        c = self.types.get(t)
        if c is not None:
            return c
        if t[0] == 'call' and t[1][0] == 'class':
            return self.find_class(t[1])
        return self.client.typeof(self, t)

    def find_class(self, t):
        mod, _, nm = t[1].partition(':')
        return self.repo.modules[mod].classes.get(nm)

    def resolve(self, fn):
        """-> (Func, self_term, cls) or (None, None, None)"""
        if fn[0] == 'func':
            mod, _, nm = fn[1].partition(':')
            m = self.repo.modules[mod]
            return Func(m.functions[nm], m), None, None
        if fn[0] == 'attr':
            b = fn[1]
            if b[0] == 'call' and b[1] == ('ext', 'super'):
                fr = self.frame
                after = None
                if b[2] and b[2][0][0] == 'class':
                    after = self.find_class(b[2][0])
                else:
                    after = fr.func.cls
                if fr.self_cls is not None and after is not None:
                    f = self.repo.method(fr.self_cls, fn[2], after=after)
                    if f:
                        return f, fr.self_term, fr.self_cls
                return None, None, None
            if b[0] == 'class':
                c = self.find_class(b)
                f = self.repo.method(c, fn[2]) if c else None
                if f:
                    return f, 'unbound', c
                return None, None, None
            c = self.class_of(b)
            if c is not None:
                f = self.repo.method(c, fn[2])
                if f:
                    return f, b, c
        return None, None, None

    def call(self, s, fn, args, kwargs, node, prop=False):
        if fn[0] == 'phi':
            r = []
            for x in sorted(fn[1], key=repr):
                r += self.call(s, x, args, kwargs, node)
            return r
        res = self.client.on_call(self, s, fn, args, kwargs, node)
        if res is not None:
            return res
        # list mutation tracked on the heap
        if fn[0] == 'attr' and fn[2] in ('append', 'add') and len(args) == 1:
            c = ('items', fn[1])
            h = dict(s.heap)
            h[c] = h.get(c, frozenset()) | {args[0]}
            return [(s.w(heap=h), T.NONE)]
        if fn[0] == 'attr' and fn[2] == 'copy' and not args and fn[1][0] in ('const', 'tuple'):
            return [(s, fn[1])]
        # closures
        if fn[0] in ('closure', 'lambda') and fn in self.closures:
            return self.call_closure(s, fn, args, kwargs, node)
        if fn[0] == 'call' and fn[1] == ('ext', 'functools.partial') and fn[2]:
            return self.call(s, fn[2][0], fn[2][1:] + tuple(args), tuple(fn[3]) + tuple(kwargs), node)
        f, self_term, cls = self.resolve(fn)
        if f is not None and self.client.inline(self, fn, f):
            deco = [dotted(d) or '' for d in f.node.decorator_list]
            ok = all(d in ('staticmethod', 'classmethod', 'property') for d in deco)
            is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(f.node))
            depth = len(self.frames)
            rec = sum(1 for fr in self.frames if fr.func.node is f.node)
            if ok and not is_gen and depth <= self.client.max_depth and rec == 0:
                a = args
                if self_term == 'unbound':
                    if 'staticmethod' in deco:
                        self_term = None
                    else:
                        self_term, a = (args[0], args[1:]) if args else (('fresh', 'self'), ())
                        c2 = self.class_of(self_term)
                        cls = c2 or cls
                elif 'staticmethod' in deco:
                    self_term = None
                return self.inline_call(f, self_term, cls, a, kwargs, s, node)
        return self.opaque_call(s, fn, args, kwargs, node)

    def bind_args(self, f, self_term, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.args]
        env = {}
        vals = list(args)
        if self_term is not None and names and not any(
                dotted(d) == 'staticmethod' for d in f.node.decorator_list):
            vals = [self_term] + vals
        star = any(v[0] == 'star' for v in vals)
        for i, nm in enumerate(names):
            if i < len(vals) and not star:
                env[nm] = vals[i]
        if star:
            for i, nm in enumerate(names):
                if i < len(vals):
                    if vals[i][0] == 'star':
                        break
                    env[nm] = vals[i]
        if a.vararg:
            extra = vals[len(names):]
            if len(extra) == 1 and extra[0][0] == 'star':
                env[a.vararg.arg] = extra[0][1]
            else:
                env[a.vararg.arg] = ('tuple', tuple(extra))
        kwrest = []
        for k, v in kwargs:
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                kwrest.append((k, v))
        defs = a.defaults
        for i, d in enumerate(defs):
            nm = names[len(names) - len(defs) + i]
            if nm not in env:
                env[nm] = self._default(d, f, nm)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self._default(d, f, x.arg)
        for nm in names:
            env.setdefault(nm, ('fresh', ('arg', nm)))
        if a.kwarg:
            env[a.kwarg.arg] = ('kwargs', tuple(kwrest))
        return env

    def _default(self, d, f, nm):
        if isinstance(d, ast.Constant):
            return ('const', d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return ('const', -d.operand.value)
        if isinstance(d, ast.Tuple) and not d.elts:
            return ('tuple', ())
        return ('default', f.qualname, nm)

    def inline_call(self, f, self_term, cls, args, kwargs, s, node, parent=None):
        self.inlined.add(f.qualname)
        env = self.bind_args(f, self_term, args, kwargs)
        if parent is not None:
            env['$parent'] = parent
        ctx = self.frame.ctx + ((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
        fr = Frame(f, self_term, cls, ctx)
        if self_term is not None and cls is not None and self_term not in self.types:
            self.types[self_term] = cls
        caller_env = s.env
        save = self.excs
        self.excs = []
        self.frames.append(fr)
        try:
            out = self.block(f.node.body, [s.w(env=env)])
        finally:
            self.frames.pop()
        ex = self.excs
        self.excs = save
        for x, e in self._merge_exc(ex):
            self.excs.append((self.leave(x, caller_env, fr, parent), e))
        rets = out.ret + [(x, T.NONE) for x in out.normal]
        rets = [(self.leave(x, caller_env, fr, parent), v) for x, v in rets]
        return self.merge([x for x, _ in rets], [v for _, v in rets])

    def leave(self, x, caller_env, fr, parent):
        if parent is not None:
            # nonlocal writes: propagate names declared nonlocal
            nl = set()
            for st in ast.walk(fr.func.node):
                if isinstance(st, ast.Nonlocal):
                    nl |= set(st.names)
            if nl:
                e = dict(caller_env)
                for k in nl:
                    if k in x.env:
                        e[k] = x.env[k]
                return x.w(env=e)
        return x.w(env=caller_env)

    def call_closure(self, s, fn, args, kwargs, node):
        n, defframe = self.closures[fn]
        depth = len(self.frames)
        f_mod = defframe.func.module
        if defframe is self.frame:
            penv = s.env
        else:
            ce = s.heap.get(('cenv', fn))
            penv = dict(ce[1].d) if ce is not None and ce[0] == 'env' else {}
        if isinstance(n, ast.Lambda):
            node2 = ast.FunctionDef(name='<lambda>', args=n.args,
                                    body=[ast.copy_location(ast.Return(value=n.body), n)],
                                    decorator_list=[], lineno=n.lineno, col_offset=n.col_offset)
        else:
            node2 = n
        rec = sum(1 for fr in self.frames if fr.func.node is n or fr.func.node is node2)
        if depth > self.client.max_depth or rec:
            return self.opaque_call(s, fn, args, kwargs, node)
        f = Func(node2, f_mod, None)
        return self.inline_call(f, None, defframe.self_cls, args, kwargs, s, node,
                                parent=('env', _FrozenEnv(penv)))

    def opaque_call(self, s, fn, args, kwargs, node):
        nm = fn[1] if fn[0] == 'ext' else None
        last = nm.split('.')[-1] if nm else (fn[2] if fn[0] == 'attr' else None)
        pure = (nm in PURE) or self.client.pure(self, fn)
        if nm is None and fn[0] == 'attr' and fn[2] in ('get', 'items', 'keys', 'values', 'iteritems',
                                                       'startswith', 'endswith', 'metadata',
                                                       'strip', 'split', 'format', 'join', 'lower', 'upper'):
            pure = True
        if nm in ('six.iteritems', 'six.itervalues', 'six.iterkeys', 'itertools.chain') or \
                (nm and nm.startswith('numpy.') and not nm.startswith('numpy.random')
                 and nm.split('.')[-1] not in ('zeros', 'ones', 'empty', 'array')):
            pure = True
        if nm == 'bool' and len(args) == 1 and not kwargs:
            tv = self.truth(s, args[0])
            if tv is not None:
                return [(s, T.const(tv))]
        uid = None if pure else (self.frame.ctx, node.lineno, node.col_offset)
        t = ('call', fn, tuple(args), tuple(kwargs), uid)
        if last == 'get' and fn[0] == 'attr' and 1 <= len(args) <= 2:
            # d.get(k): None/default or d[k]
            c = mksub(fn[1], args[0])
            if c in s.heap:
                t = s.heap[c]
            else:
                t = ('get', fn[1], args[0], args[1] if len(args) > 1 else T.NONE)
            return [(s, t)]
        self.opaque.add(T.show(fn))
        if not (nm in NOTHROW_BUILTIN or nm in NOTHROW_EXT
                or (nm or '').split('.')[-1] in ('debug',)
                or (fn[0] == 'attr' and fn[2] in NOTHROW_METHODS)
                or self.client.nothrow(self, s, fn, node)):
            self.excs.append((s, ('exc', T.show(fn))))
        return [(s, t)]


class _FrozenEnv(object):
    """hashable wrapper of an env snapshot"""
    def __init__(self, d):
        self.d = d

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, _FrozenEnv)

    def __repr__(self):
        return '<env>'


def _with(d, k, v):
    d = dict(d)
    d[k] = v
    return d


def mksub(b, i):
    if i[0] == 'idx' and i[1] == b:
        return ('elem', b)
    return ('sub', b, i)


def mkbin(op, a, b):
    if a[0] == 'const' and b[0] == 'const' and op in '+-*' and \
            isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)) and \
            not isinstance(a[1], bool) and not isinstance(b[1], bool):
        return ('const', a[1] + b[1] if op == '+' else a[1] - b[1] if op == '-' else a[1] * b[1])
    if op == '+' and a[0] == 'const' and b[0] == 'const' and isinstance(a[1], str) and isinstance(b[1], str):
        return ('const', a[1] + b[1])
    if T.size(a) + T.size(b) > 400:
        return ('fresh', ('big', op))
    return ('bin', op, a, b)


def mkcmp(op, a, b):
    if isinstance(op, ast.Lt):
        return ('lt', a, b)
    if isinstance(op, ast.Gt):
        return ('lt', b, a)
    if isinstance(op, ast.LtE):
        return ('le', a, b)
    if isinstance(op, ast.GtE):
        return ('le', b, a)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        if a[0] == 'const' and b[0] != 'const':
            a, b = b, a
        t = ('eq', a, b)
    elif isinstance(op, (ast.Is, ast.IsNot)):
        if a[0] == 'const' and b[0] != 'const':
            a, b = b, a
        t = ('is', a, b)
    else:
        t = ('in', a, b)
    if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)):
        return ('un', 'not', t)
    return t


_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
        ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
        ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}


def _assigned(loop):
    names = set()
    for x in ast.walk(loop):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            names.add(x.id)
    return names


def _carried(loop):
    """nodes of statements in the loop after which it may go round again"""
    out = []

    def block(body, inner):
        for i, st in enumerate(body):
            if isinstance(st, ast.Return) or isinstance(st, ast.Break) and not inner:
                # nothing before it in this block survives into another iteration
                del out[block_start[-1]:]
                return
            if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for fld in ('test', 'iter', 'target', 'items'):
                    v = getattr(st, fld, None)
                    for x in (v if isinstance(v, list) else [v] if v is not None else []):
                        out.extend(ast.walk(x))
                deep = inner or isinstance(st, (ast.For, ast.While))
                subs = [getattr(st, f, None) for f in ('body', 'orelse', 'finalbody')] + [h.body for h in getattr(st, 'handlers', [])]
                for k, sub in enumerate(subs):
                    if sub:
                        block_start.append(len(out))
                        block(sub, deep if k == 0 or not isinstance(st, (ast.For, ast.While)) else inner)
                        block_start.pop()
            else:
                out.extend(ast.walk(st))
    block_start = [0]
    block(loop.body, False)
    return out


def _own_nodes(fn):
    """nodes of a function excluding nested functions"""
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        yield x
        for ch in ast.iter_child_nodes(x):
            if not isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(ch)
