"""S01: temporary settings are restored on every exit (frame analysis over all functions that override one)."""
from sa import terms as T
from sa.interp import Client
from sa.util import *

EXPLANATION = (
    'Frame analysis over every function of the repository that overrides one of the framework\'s transient '
    'settings (derivative options and their lock, preconditioner nesting level, complex-step switch, relevant-input '
    'restriction).  The function is interpreted path-sensitively; every call may raise; at each return and each '
    'exceptional exit the setting must hold its entry value (or its unset value).  A setting left over by a failed '
    'call is tolerated only where every use is dominated by a fresh assignment.')
RULE = 'setting at exit == setting at entry (or unset) on all normal and exceptional exits'
ASSUMPTIONS = ['set-up and constructor functions establish settings permanently and are not overrides',
               'two different receivers of the same setting are distinct objects']

# attribute -> neutral values
ATTRS = {'precon_level': (), 'in_complex_step': (), 'rel_inputs': (T.NONE,), '_rel_inputs': (T.NONE,), 'locked': ()}
ITEMS = ('deriv_options', 'fd_options')
PERMANENT = ('__init__', 'setup', '__setattr__', '__setitem__', '_setup_vectors', '_setup_prom_map')


def setting(cell):
    """name of the transient setting a cell denotes"""
    if cell[0] == 'attr' and cell[2] in ATTRS:
        if cell[2] == 'locked' and not mentions_attr(cell[1], 'deriv_options'):
            return None
        return cell[2]
    if cell[0] == 'sub' and cell[1][0] == 'attr' and cell[1][2] in ITEMS:
        return '%s[%s]' % (cell[1][2], T.show(cell[2]))
    return None


class Frame(Client):
    generic_loops = True
    max_states = 40

    def __init__(self):
        self.writes = []
        self.stale_calls = {}

    def init_auto(self):
        return frozenset()

    def keyfact(self, t):
        return False

    def inline(self, I, fn, func):
        # only helpers that themselves touch a setting, or belong to the same class
        return touches(func) or (func.cls is not None and I.frames[0].self_cls is not None
                                 and fn[0] == 'attr' and fn[1] == T.SELF and small(func))

    def on_store(self, I, st, cell, value, node):
        if setting(cell):
            self.writes.append((cell, I.loc(node)))
            return st.setauto(st.auto | {cell}, (I.loc(node), 'set ' + T.show(cell)[:60]))
        return st

    on_aug = lambda self, I, st, cell, old, op, value, node: self.on_store(I, st, cell, None, node)

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm not in ('is_relevant', 'name_relative_to') and fn[0] == 'attr':
            self.stale_calls.setdefault(I.loc(node), []).append((nm, st))
        return None

    def nothrow(self, I, st, fn, node):
        nm = ext_tail(fn)
        return nm in ('print_norm', 'create_local_meta', 'update_local_meta', 'clear_dparams', 'debug', 'is_relevant',
                      '_scale_derivatives', '_apply_unit_derivatives', 'vec_val_iter', 'norm', 'OrderedDict',
                      'distance_along_vector_to_limit', 'name_relative_to', 'startswith', 'simplefilter', 'warn')


_cache = {}


def small(func):
    return sum(1 for _ in ast.walk(func.node)) < 400


def touches(func):
    k = id(func.node)
    if k not in _cache:
        _cache[k] = any(direct(n) for n in ast.walk(func.node)) and func.name not in PERMANENT
    return _cache[k]


def direct(n):
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ATTRS:
        return n.attr != 'locked' or 'deriv_options' in ast.unparse(n)
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr in ITEMS:
        return True
    if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'setattr' and len(n.args) > 1 and \
            isinstance(n.args[1], ast.Constant) and n.args[1].value in ATTRS:
        return True
    return False


EXPECTED = {
    # overrides that must exist: (class, method, setting)
    ('Newton', 'solve', "deriv_options['type']"),
    ('ScipyGMRES', '_precon', 'precon_level'),
    ('PetscKSP', 'apply', 'precon_level'),
    ('Group', 'solve_linear', 'rel_inputs'),
}


def check(repo, rep, tier):
    found = set()
    helpers = set()
    todo = []
    for f in repo.all_functions():
        if f.name in PERMANENT or '/test/' in f.module.path:
            continue
        if touches(f):
            todo.append(f)
    rep.need(todo, 'no override of a transient setting found')
    for f in todo:
        c = Frame()
        I, out = run(repo, c, f, self_cls=f.cls)
        rep.fn(f.qualname, *I.inlined)
        n_norm = 0
        bad = []
        for st, exc in [(s, False) for s, _ in out.ret] + [(s, True) for s, e in out.exc if e != ('exc', 'implicit')]:
            for cell in st.auto:
                nm = setting(cell)
                rep.saw('exits_checked')
                found.add((f.cls.name if f.cls else '', f.name, nm))
                v = st.heap.get(cell, cell)
                neutral = ATTRS.get(cell[2], ()) if cell[0] == 'attr' else ()
                ok = v == cell or all(restored(a, cell) or a in neutral for a in T.alts(v))
                if not ok and exc and cell == ('attr', T.SELF, 'rel_inputs') and f.name == '_sys_apply_linear':
                    ok = fresh_before_use(repo, f, cell)
                bad.append((nm, exc, ok, v, cell, st.trail))
        rep.saw('overriding_functions')
        for nm, exc, ok, v, cell, trail in bad:
            rep.ob('%s/%s/%s' % (f.qualname, nm, 'exception' if exc else 'return'), ok,
                   '%s left as %s when the function %s (%s)' % (
                       T.show(cell)[:60], T.show(v)[:80], 'raises' if exc else 'returns',
                       '; '.join('%s %s' % x for x in trail[-3:])), where(f), 'frame')
    # a function may delegate the override to a helper: then the helper's caller was analysed with it inlined
    names = {(a, c) for a, b, c in found}
    for cn, mn, nm in sorted(EXPECTED):
        cls = repo.cls(cn)
        rep.ob('%s.%s/overrides/%s' % (cn, mn, nm), nm in {c for _, _, c in found},
               'the temporary setting %s is no longer established here' % nm, where(repo.method(cls, mn)), 'frame')
    # Newton must solve with analytic assembly of its own system: the override precedes every linearization
    newton_override(repo, rep)


def restored(a, cell):
    if a == cell:
        return True
    if a[0] == 'bin':
        return T.same(a, cell)
    return False


class Stale(Frame):
    def __init__(self, cell):
        Frame.__init__(self)
        self.cell = cell
        self.bad = False

    def on_call(self, I, st, fn, args, kwargs, node):
        if fn[0] == 'attr' and ext_tail(fn) in ('apply_linear', '_apply_linear_jac'):
            if st.heap.get(self.cell, self.cell) == self.cell:
                self.bad = True
        return None


def fresh_before_use(repo, f, cell):
    """every operation that reads the setting runs after a fresh assignment"""
    c = Stale(cell)
    run(repo, c, f, self_cls=f.cls)
    return not c.bad


class Order(Client):
    generic_loops = True
    max_states = 30

    def __init__(self):
        self.hits = []

    def keyfact(self, t):
        return False

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) in ('_sys_linearize', 'linearize', 'solve_linear'):
            base = fn[1]
            v = st.heap.get(('sub', ('attr', base, 'deriv_options'), ('const', 'type')))
            self.hits.append((ext_tail(fn), v, I.loc(node)))
        return None


def newton_override(repo, rep):
    cls = repo.cls('Newton')
    f = repo.method(cls, 'solve')
    c = Order()
    I, out = run(repo, c, f, self_cls=cls)
    rep.need(c.hits, 'Newton.solve performs no linearization')
    for nm, v, loc in c.hits:
        rep.ob('Newton.solve/own-derivatives/' + nm, v == ('const', 'user'),
               'the system is %s while its derivative type is not overridden (%s)' % (
                   'linearized' if 'lineariz' in nm else 'solved', T.show(v) if v else 'entry value'), loc, 'frame')
