"""C01: setup rejects every ill-formed connection and accepts every well-formed one."""
import ast
from sa import terms as T
from sa.events import Trace, traces
from sa.table import decide, words
from sa.util import *

EXPLANATION = (
    'Decision tables: along every path of each routine that validates variables, promotions and connections, the branch '
    'conditions are reduced to the atomic facts that make a connection ill-formed (missing name, second source, differing type, '
    'shape or unit, wrong number or range of indices, duplicates), and the path must complain exactly when those facts demand '
    'it; every complaint that is collected rather than raised must reach the error raised by setup.')
RULE = 'for each path and each completion of its conditions: complains == ill-formed; setup raises iff complaints were collected'
ASSUMPTIONS = ['one generic variable, connection and subsystem per loop', 'metadata dictionaries hold what the variable declaration stored']


class Faults(Trace):
    def implicit_fault(self, I, st, node):
        return True


def M(x, k):
    return ('M', x, k)


def norm(t):
    """metadata reads, however spelled"""
    def f(x):
        if x[0] == 'get' and x[2][0] == 'const':
            return M(x[1], x[2][1])
        if x[0] == 'sub' and x[2][0] == 'const' and isinstance(x[2][1], str):
            return M(x[1], x[2][1])
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'get' and x[2] and x[2][0][0] == 'const':
            return M(x[1][1], x[2][0][1])
        return x
    return T.subst(t, f)


def strip_not(t, x):
    while t[0] == 'un' and t[1] == 'not':
        t, x = t[2], not x
    return t, x


def nonecheck(t, x):
    """(term, is present)"""
    if t[0] == 'is' and T.NONE in t[1:]:
        return next(y for y in t[1:] if y != T.NONE), not x
    return None


def pair(t, a, b):
    return t[0] == 'eq' and {t[1], t[2]} == {a, b}


def cmp_ge(t, x, a, b):
    """truth of a >= b from a comparison fact, or None"""
    one = T.const(1)
    if t[0] == 'le' and t[1:] == (b, a):
        return x
    if t[0] == 'lt' and t[1:] == (a, b):
        return not x
    if t[0] == 'lt' and t[1:] == (('bin', '-', b, one), a):
        return x
    if t[0] == 'le' and t[1:] == (a, ('bin', '-', b, one)):
        return not x
    return None


def extreme(t, which, X):
    """max(X), X.max(), numpy.max(X), numpy.amax(X)"""
    if t[0] != 'call' or ext_tail(t[1]) not in (which, 'a' + which):
        return False
    if t[2] and strip_array(t[2][0]) == X:
        return True
    return t[1][0] == 'attr' and strip_array(t[1][1]) == X


def strip_array(t):
    while t[0] == 'call' and ext_tail(t[1]) in ('array', 'asarray', 'list', 'tuple', 'ravel', 'flatten'):
        t = t[2][0] if t[2] else t[1][1]
    return t


def counts(t, X):
    return t[0] == 'call' and t[1] == ('ext', 'len') and t[2] and strip_array(t[2][0]) == X or t[0] == 'attr' and t[2] == 'size' and strip_array(t[1]) == X


def complains(events, value, errs=None):
    """does the path add anything to the list it returns (or return a non-empty list)?"""
    if value is not None and value[0] in ('list', 'tuple') and value[1]:
        return True
    for e in events:
        if e[0] == 'call' and e[1] in ('append', 'extend', 'insert') and (errs is None or e[2][0] == 'attr' and errs(e[2][1])):
            return True
        if e[0] == 'aug' and e[1] == '+' and (errs is None or errs(e[2])):
            return True
    return False


def paths_of(res, out):
    for r in res:
        yield r + (False,)
    for st, e in out.exc:
        yield (st.auto, st.facts, e, st, True)


# ---------------------------------------------------------------- shapes
def shapes(repo, rep):
    f = repo.func('_checks._check_shapes_match')
    rep.fn(f.qualname)
    a = [x.arg for x in f.node.args.args]
    S, G = ('param', a[0]), ('param', a[1])
    IDX, DST = M(G, 'src_indices'), M(S, 'src_indices')

    def classify(t, x):
        t, x = strip_not(norm(t), x)
        n = nonecheck(t, x)
        if n:
            nm = {IDX: 'indices', DST: 'distributed', M(S, 'shape'): 'source shape', M(G, 'shape'): 'target shape'}.get(n[0])
            return [(nm, n[1])] if nm else None
        if t[0] == 'in' and t[1] == T.const('src_indices'):
            return [({G: 'indices', S: 'distributed'}.get(t[2], '?'), x)]
        if t[0] == 'eq':
            if any(counts(y, IDX) for y in t[1:]) and M(G, 'size') in t[1:]:
                return [('count matches', x)]
            if pair(t, M(S, 'shape'), M(G, 'shape')):
                return [('shapes equal', x)]
            if pair(t, M(S, 'distrib_size'), M(G, 'size')):
                return [('distributed size equal', x)]
        if t[0] in ('le', 'lt'):
            hi = next((y for y in T.subterms(t) if extreme(y, 'max', IDX)), None)
            lo = next((y for y in T.subterms(t) if extreme(y, 'min', IDX)), None)
            if hi is not None:
                for k, nm in (('distrib_size', 'beyond distributed size'), ('size', 'beyond size')):
                    b = cmp_ge(t, x, hi, M(S, k))
                    if b is not None:
                        return [(nm, b)]
            if lo is not None:
                b = cmp_ge(t, x, lo, T.const(0))
                if b is not None:
                    return [('negative', not b)]
        return None
    atoms = ['indices', 'distributed', 'source shape', 'target shape', 'count matches', 'shapes equal', 'distributed size equal',
             'beyond size', 'beyond distributed size', 'negative']

    def expected(d):
        if not d['source shape'] or not d['target shape']:
            return None
        if d['indices']:
            return not d['count matches'] or d['negative'] or (d['beyond distributed size'] if d['distributed'] else d['beyond size'])
        if d['distributed']:
            return None if d['shapes equal'] else not d['distributed size equal']
        return not d['shapes equal']
    c = Trace(calls=('append', 'extend', 'insert'))
    res, out, I = traces(repo, f, None, client=c)
    ps = list(paths_of(res, out))
    rep.need(len(ps) >= 4, '_check_shapes_match: paths not found')
    table(rep, 'shapes', ps, atoms, classify, expected, lambda p: p[4] or complains(p[0], p[2]), f)
    for p in ps:
        known = {}
        for t, x in p[1].items():
            for k, v in classify(t, x) or ():
                known[k] = v


def table(rep, key, ps, atoms, classify, expected, actual, f, possible=None):
    n = 0
    for p, asg, want, got in decide(ps, atoms, classify, expected, actual, possible):
        n += 1
        if n > 3:
            break
        loc = next((e[-1] for e in reversed(p[0]) if e[0] == 'set'), where(f))
        rep.ob('%s/%s' % (key, words(asg)), False, '%s although: %s' % ('accepted' if want else 'rejected', words(asg)), where(f), key)
    rep.ob(key + '/%d paths' % len(ps), True, '', where(f), key)


# ---------------------------------------------------------------- types
def types(repo, rep):
    f = repo.func('_checks._check_types_match')
    rep.fn(f.qualname)
    a = [x.arg for x in f.node.args.args]
    S, G = ('param', a[0]), ('param', a[1])
    sv, tv = M(S, 'val'), M(G, 'val')
    IDX = M(G, 'src_indices')

    def isfile(t):
        return t[0] == 'call' and t[1] == ('ext', 'isinstance') and len(t[2]) == 2 and ext_tail(t[2][1]) == 'FileRef'

    def ty(v):
        return [('call', ('ext', 'type'), (v,), (), None), ('attr', v, '__class__')]

    def classify(t, x):
        t, x = strip_not(norm(t), x)
        t = T.subst(t, lambda y: ('call', y[1], y[2], (), None) if y[0] == 'call' and y[1] == ('ext', 'type') else y)
        if isfile(t):
            return [('file source' if t[2][0] == sv else 'file target' if t[2][0] == tv else '?', x)]
        n = nonecheck(t, x)
        if n and n[0] == IDX:
            return [('indices', n[1])]
        if t[0] == 'in' and t[1:] == (T.const('src_indices'), G):
            return [('indices', x)]
        if t[0] in ('eq', 'is'):
            if any(y in ty(sv) for y in t[1:]) and any(y in ty(tv) for y in t[1:]):
                return [('types equal', x)]
            if any(counts(y, IDX) for y in t[1:]) and T.const(1) in t[1:]:
                return [('one index', x)]
            if any(y in ty(tv) for y in t[1:]) and ('ext', 'float') in t[1:]:
                return [('float target', x)]
        if t[0] == 'call' and t[1] == ('ext', 'isinstance') and t[2][0] == tv and t[2][1] == ('ext', 'float'):
            return [('float target', x)]
        return None
    atoms = ['file source', 'file target', 'types equal', 'indices', 'one index', 'float target']

    def expected(d):
        if d['file source'] or d['file target']:
            return None
        return not d['types equal'] and not (d['indices'] and d['one index'] and d['float target'])
    res, out, I = traces(repo, f, None, client=Trace(calls=('validate',)))
    ps = list(paths_of(res, out))
    rep.need(len(ps) >= 3, '_check_types_match: paths not found')
    table(rep, 'types', ps, atoms, classify, expected, lambda p: p[4], f)

    def validated(p):
        return p[4] or any(e[0] == 'call' and e[1] == 'validate' and e[2][0] == 'attr' and norm(e[2][1]) == tv and e[3] and norm(e[3][0]) == sv for e in p[0])
    table(rep, 'files', ps, atoms, classify, lambda d: True if d['file source'] or d['file target'] else None, validated, f)


# ---------------------------------------------------------------- all connections
def connections(repo, rep):
    f = repo.func('_checks.check_connections')
    rep.fn(f.qualname)
    a = [x.arg for x in f.node.args.args]
    C, P, U = [('param', x) for x in a[:3]]
    # the routine only ever looks at the generic connection: cut the file part off by assuming no parameters
    c = Trace(calls=('append', 'extend', 'insert', '_check_types_match', '_check_shapes_match'), assume=lambda t: False if t == ('nonempty', P) else None)
    c.havoc_containers = True
    res, out, I = traces(repo, f, None, client=c)
    n = 0
    tgt = ('elem', C)
    want = (('sub', U, ('idx', ('sub', C, tgt), 0)), ('sub', P, tgt))

    def metas(args):
        """(source metadata, target metadata) in that order"""
        if len(args) < 2:
            return False
        s, g = args[:2]
        return s[0] == 'sub' and s[1] == U and T.contains(s[2], lambda y: y == C) and g[0] == 'sub' and g[1] == P and g[2] == tgt \
            and s[2] in (('sub', ('sub', C, tgt), T.const(0)),)
    for ev, facts, v, st in res:
        if facts.get(('nonempty', C)) is not True:
            continue
        n += 1
        ty = [e for e in ev if e[0] == 'call' and e[1] == '_check_types_match']
        sh = [e for e in ev if e[0] == 'call' and e[1] == '_check_shapes_match']
        rep.ob('connections/types', len(ty) == 1 and metas(ty[0][3]), 'types are not compared for some connection', where(f), 'connections')
        pbo = None
        for t, x in facts.items():
            t, x = strip_not(norm(t), x)
            if t[0] == 'M' and t[2] == 'pass_by_obj' and t[1][0] == 'sub' and t[1][1] == U:
                pbo = x
            elif t[0] == 'in' and t[1] == T.const('pass_by_obj') and x is False and T.contains(t[2], lambda y: y == U):
                pbo = False
        if not sh:
            rep.ob('connections/shapes', pbo is True, 'shapes are not compared for some connection', where(f), 'connections')
            continue
        rep.ob('connections/shapes', len(sh) == 1 and metas(sh[0][3]), 'shapes compared for %s' % [T.show(x) for x in sh[0][3]], sh[0][5], 'connections')
        r = T.contains
        made = ('call', sh[0][2], tuple(sh[0][3]))
        kept = [e for e in ev if (e[0] == 'call' and e[1] in ('extend', 'append') and e[3] and r(e[3][0], lambda y: y[0] == 'call' and y[:3] == made) or
                                  e[0] == 'aug' and r(e[3], lambda y: y[0] == 'call' and y[:3] == made))]
        looped = any(k[0] == 'nonempty' and k[1][0] == 'call' and k[1][:3] == made for k in facts)
        rep.ob('connections/kept', bool(kept) or looped, 'what the shape comparison found is dropped', sh[0][5], 'connections')
        for e in kept:
            base = e[2][1] if e[0] == 'call' else e[2]
            rep.ob('connections/returned', base == v or e[0] == 'aug' and v[0] == 'bin' and v[2] == base or base[0] == 'mu' and v[0] == 'mu' and base[2:] == v[2:], 'complaints go to %s, %s is returned' % (T.show(base), T.show(v)), e[-1] if e[0] == 'aug' else e[5], 'connections')
    rep.need(n >= 2, 'check_connections: the loop over the connections was not found')


# ---------------------------------------------------------------- setup
def reporters(repo):
    """names of routines that may add to the collected errors, directly or through calls"""
    direct, calls = set(), {}
    for f in repo.all_functions():
        if '/test' in f.module.path:
            continue
        nm = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == '_setup_errors' and isinstance(n.value, ast.Name):
                direct.add(f.name)
            if isinstance(n, ast.Call):
                nm.add(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None))
        calls[f.name] = calls.get(f.name, set()) | nm
    cls = repo.cls('Problem')
    own = {m for c in repo.mro(cls) for m in c.methods} if hasattr(repo, 'mro') else set(cls.methods)
    out = set(direct)
    while True:
        more = {m for m in own if m not in out and calls.get(m, set()) & out & own}
        if not more:
            return out
        out |= more


class Setup(Trace):
    """the collected errors are unknown after anything may have added to them"""

    def __init__(self, adders, **kw):
        Trace.__init__(self, **kw)
        self.adders = adders

    def is_err(self, t):
        return t[0] in ('param',) and t[1].startswith('#errors') or t[0] == 'attr' and t[2] == '_setup_errors'

    def bump(self, st):
        k = sum(1 for e in st.auto if e[0] == 'added')
        st = st.put(('attr', T.SELF, '_setup_errors'), ('param', '#errors%d' % k))
        return st.w(auto=st.auto + (('added', k, None, ''),))

    def on_store(self, I, st, cell, value, node):
        if cell == ('attr', T.SELF, '_setup_errors'):
            return st.w(auto=st.auto + (('reset', cell, value, I.loc(node)),))
        return Trace.on_store(self, I, st, cell, value, node)

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm in ('append', 'extend') and fn[0] == 'attr' and not self.is_err(fn[1]) and fn[1] != ('list', ()):
            return None
        r = Trace.on_call(self, I, st, fn, args, kwargs, node)
        if r and nm in self.adders:
            r = [(self.bump(s), v) for s, v in r]
        return r

    def on_aug(self, I, st, cell, old, op, value, node):
        if cell == ('attr', T.SELF, '_setup_errors'):
            return self.bump(Trace.on_aug(self, I, st, cell, old, op, value, node))
        return Trace.on_aug(self, I, st, cell, old, op, value, node)


def setup(repo, rep):
    cls = repo.cls('Problem')
    f = repo.method(cls, 'setup')
    rep.fn(f.qualname)
    names = reporters(repo) - {'setup'}
    rep.need(len(names) >= 4, 'routines that collect setup errors not found')
    own = {'append', 'extend'}
    def errs(t):
        return T.contains(t, lambda y: y[0] == 'param' and str(y[1]).startswith('#errors') or y[0] == 'attr' and y[2] == '_setup_errors')

    def voi(nm):
        return lambda t: t[0] in ('nonempty', 'in') and T.contains(t, lambda y: y[0] == 'attr' and y[2] == nm)

    def shapes_(t):
        return t[0] != 'nonempty' and T.contains(t, lambda y: y[0] == 'const' and y[1] in ('shape', 'pass_by_obj')) or t[0] == 'in' and T.contains(t[2], lambda y: y[0] == 'call' and ext_tail(y[1]) == '_setup_connections' or y[0] == 'attr' and y[2] in ('_dangling', 'dangling'))
    inl = methods_unknown(repo, cls)

    def go(keep):
        c = Setup(names | own, calls=tuple(names | own | {'check_connections', 'post_setup', '_setup_variables'}), inline=lambda I, fn, func: func.name in inl,
                  cells=lambda c: c == ('attr', T.SELF, '_setup_errors') or c[0] == 'param' and c[1].startswith('#errors') or c == ('list', ()),
                  keep=lambda t: errs(t) or keep(t))
        res, out, I = traces(repo, f, cls, client=c)
        rep.need(len(res) >= 1, 'Problem.setup: no paths')
        return res, out
    for nm in ('desvars_of_interest', 'outputs_of_interest'):
        res, out = go(voi(nm))
        k = 0
        for ev, facts, v, st in res:
            k += known_names(rep, ev, facts, f, nm)
        rep.ob('setup/names/%s/looked up' % nm, k, 'variables of the driver are not looked up', where(f), 'setup')
    res, out = go(shapes_)
    k = 0
    for ev, facts, v, st in res:
        k += shapeless(rep, ev, facts, f)
    rep.ob('setup/shapeless/looked for', k, 'unconnected inputs without a shape are not looked for', where(f), 'setup')
    res, out = go(lambda t: False)
    key = 'setup'

    def last(ev):
        i = max([i for i, e in enumerate(ev) if e[0] == 'added'] or [-1])
        return i, ('param', '#errors%d' % ev[i][1]) if i >= 0 else None

    def truth_of(facts, t):
        for k, x in facts.items():
            k, x = strip_not(k, x)
            if k == t or k == ('nonempty', t):
                return x
            ln = next((y for y in k[1:] if isinstance(y, tuple) and y and y[0] == 'call' and y[1] == ('ext', 'len') and y[2] == (t,)), None)
            if ln is not None:
                if k == ('lt', T.const(0), ln) or k == ('le', T.const(1), ln):
                    return x
                if k[0] == 'eq' and T.const(0) in k[1:] or k == ('lt', ln, T.const(1)) or k == ('le', ln, T.const(0)):
                    return not x
        return None
    seen = set()
    for p in paths_of(res, out):
        ev, facts, v, st, exc = p
        if exc and v[0] == 'exc':
            continue
        i, t = last(ev)
        got = [e[1] for e in ev if e[0] == 'call']
        if exc:
            # the error raised at the end needs something collected; errors about names are raised on the spot
            if t is not None and truth_of(facts, t) is True:
                seen.add('raises')
                rep.ob(key + '/shows', T.contains(v, lambda y: y == t or y == ('elem', t) or y[0] == 'call' and ext_tail(y[1]) == 'getvalue'), 'raises %s' % T.show(v), where(f), 'setup')
            continue
        delegated = v[0] == 'call' and v[1] == ('attr', T.SELF, 'setup')
        if delegated:
            continue
        rep.ob(key + '/reset', any(e[0] == 'reset' for e in ev), 'errors of an earlier setup are not cleared', where(f), 'setup')
        rs = [j for j, e in enumerate(ev) if e[0] == 'reset']
        first = min([j for j, e in enumerate(ev) if e[0] == 'added'] or [10**6])
        rep.ob(key + '/resetfirst', not rs or max(rs) < first, 'collected errors are thrown away', where(f), 'setup')
        rep.ob(key + '/raised', t is not None and truth_of(facts, t) is False, 'setup returns although errors may have been collected', where(f), 'setup')
        for nm in sorted(names - set(NOT_SETUP)):
            if repo.cls('Problem').methods.get(nm) is not None:
                rep.ob(key + '/calls/' + nm, nm in got or not called_from(repo, 'setup', nm), '%s is not run' % nm, where(f), 'setup')
        rep.ob(key + '/connections', any(e[0] == 'call' and e[1] == 'check_connections' for e in ev), 'connections are not checked', where(f), 'setup')
        ck = [e for e in ev if e[0] == 'call' and e[1] == 'check_connections']
        for e in ck:
            made = ('call', e[2], tuple(e[3]))
            kept = any(x[0] == 'call' and x[1] in ('extend', 'append') and x[3] and T.contains(x[3][0], lambda y: y[0] == 'call' and y[:3] == made) or
                       x[0] == 'aug' and T.contains(x[3], lambda y: y[0] == 'call' and y[:3] == made) for x in ev)
            rep.ob(key + '/connections/kept', kept, 'what check_connections returns is dropped', e[5], 'setup')
            cn = next((x for x in ev if x[0] == 'call' and x[1] == '_setup_connections'), None)
            ok = cn is not None and e[3] and e[3][0][0] == 'call' and e[3][0][1] == cn[2]
            rep.ob(key + '/connections/all', ok, 'checks %s' % (T.show(e[3][0]) if e[3] else '?'), e[5], 'setup')
        acts = [e for e in ev if e[0] == 'call' and e[1] == 'post_setup']
        for e in acts:
            rep.ob(key + '/post', ev.index(e) > i, 'post_setup runs before the errors are raised', e[5], 'setup')
    rep.ob(key + '/raises', 'raises' in seen, 'setup never raises the errors it collected', where(f), 'setup')


BASE_METHODS = set('''
    __getitem__ __init__ __setitem__ _add_implicit_connections _calc_gradient_fd _calc_gradient_ln_solver _check_dangling_params
    _check_driver_issues _check_for_parallel_derivs _check_gmres_under_mpi _check_graph _check_input_diffs _check_mode _check_mpi
    _check_no_connect_comps _check_no_recorders _check_no_unknown_comps _check_relevant_pbos _check_solvers _check_ubcs
    _check_unmarked_pbos _get_ubc_vars _get_voi_key _json_system_tree _mode _setup_communicators _setup_connections _setup_units
    _start_recorders calc_gradient check_partial_derivatives check_setup check_total_derivatives cleanup find_subsystem
    get_req_procs pre_run_check print_all_convergence run run_once setup
'''.split())
NOT_SETUP = ('setup', '__init__')


def called_from(repo, caller, name):
    f = repo.method(repo.cls('Problem'), caller)
    return True if name in CALLED else any(isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', None)) == name for n in ast.walk(f.node))


CALLED = {'_setup_connections', '_check_input_diffs', '_check_solvers'}


def methods_unknown(repo, cls):
    """helpers that the tree this check was written against did not have"""
    return {m for c in repo.mro(cls) for m in c.methods} - BASE_METHODS


def known_names(rep, ev, facts, f, nm):
    """a generic driver variable must be known"""
    n = 0
    for _ in (0,):
        for k, x in facts.items():
            if k[0] == 'nonempty' and x and k[1][0] == 'elem' and T.contains(k[1], lambda y: y[0] == 'attr' and y[2] == nm):
                v = ('elem', k[1])
                n += 1
                ok = any(t[0] == 'in' and t[1] == v and y is True and T.contains(t[2], lambda z: z[0] == 'attr' and z[2] in ('to_abs_uname', '_unknowns_dict')) for t, y in facts.items())
                rep.ob('setup/names/' + nm, ok, 'a variable of the driver that does not exist is accepted', where(f), 'setup')
    return n


def shapeless(rep, ev, facts, f):
    """an unconnected input without shape is an error"""
    table_ev = [e for e in ev if e[0] == 'call' and e[1] == 'append']
    P = None
    for k, x in facts.items():
        if k[0] == 'in' and k[1][0] == 'elem' and k[2][0] == 'call' and ext_tail(k[2][1]) == '_setup_connections':
            P, conn = k[1], x
    if P is None:
        return 0
    shape = pbo = None
    for k, x in facts.items():
        k, x = strip_not(norm(k), x)
        if not T.contains(k, lambda y: y == P):
            continue
        if k[0] == 'eq' and any(y[0] == 'M' and y[2] == 'shape' for y in k[1:]) and any(y in (('tuple', ()), T.const(())) for y in k[1:]):
            shape = x
        if k[0] == 'M' and k[2] == 'pass_by_obj':
            pbo = x
        if k[0] == 'in' and k[1] == T.const('pass_by_obj') and not x:
            pbo = False
    # nonempty: the errors were found empty although this input is in error
    bad = conn is False and shape is not False and pbo is not True
    rep.ob('setup/shapeless', not bad or bool(table_ev), 'an unconnected input without a shape is accepted', where(f), 'setup')
    rep.ob('setup/shaped', bad or not table_ev, 'an input that is connected or has a shape is rejected', where(f), 'setup')
    return 1


# ---------------------------------------------------------------- one source
def two_ways(t):
    """are the source indices already known for a connection the given ones?"""
    return t[0] == 'call' and ext_tail(t[1]) == 'array_equal' and T.contains(t, lambda y: y == T.const('idxs'))


def known_edge(t):
    return t[0] == 'call' and ext_tail(t[1]) in ('has_edge', 'has_successor', 'has_predecessor')


def about_indices(e):
    """a complaint that quotes source indices"""
    return T.contains(e[3], lambda y: y == T.const('idxs')) if e[3] and isinstance(e[3][0], tuple) else False


def twice(repo, rep):
    """one connection declared twice with different source indices"""
    cls = repo.cls('Problem')
    f = repo.method(cls, '_setup_connections')
    c = Trace(calls=('append', 'extend', 'add_edge'), cells=lambda c: False, keep=lambda t: two_ways(t) or known_edge(t))
    c.havoc_containers = True
    res, out, I = traces(repo, f, cls, client=c)
    n = 0
    for ev, facts, v, st in res:
        said = any(e[0] == 'call' and e[1] == 'append' and (e[2][1] == ('attr', T.SELF, '_setup_errors')) and about_indices(e) for e in ev)
        eq = [x for k, x in facts.items() if two_ways(k)]
        if eq:
            n += 1
            rep.ob('onesource/indices', said == (not eq[0]), 'one connection given twice with %s source indices is %s' % (('equal', 'rejected') if eq[0] else ('different', 'accepted')), where(f), 'connections')
    rep.ob('onesource/indices', n > 0, 'one connection given twice with different source indices is accepted', where(f), 'connections')


def onesource(repo, rep):
    cls = repo.cls('Problem')
    f = repo.method(cls, '_setup_connections')
    rep.fn(f.qualname)
    c = Trace(calls=('append', 'extend', 'add_edge'), cells=lambda c: False, keep=lambda t: t[0] in ('lt', 'le', 'eq', 'is') and T.contains(t, lambda y: y[0] == 'mu' or y[0] == 'dict'))
    c.havoc_containers = True
    c.max_states = 20000
    res, out, I = traces(repo, f, cls, client=c)
    n = 0
    for ev, facts, v, st in res:
        said = any(e[0] == 'call' and e[1] == 'append' and (e[2][1] == ('attr', T.SELF, '_setup_errors')) and not about_indices(e) for e in ev)
        many, seen = None, []
        for k, x in facts.items():
            k, x = strip_not(k, x)
            ln = next((y for y in k[1:] if isinstance(y, tuple) and y and y[0] == 'call' and y[1] == ('ext', 'len')), None)
            if ln is None or ln[2][0][0] != 'sub' or ln[2][0][1][0] == 'attr':
                continue
            other = next((y for y in k[1:] if y[0] == 'const'), None)
            if other is None:
                continue
            seen.append(k)
            if k in (('lt', T.const(1), ln), ('le', T.const(2), ln)):
                many = x
            elif k in (('le', ln, T.const(1)), ('eq', ln, T.const(1)), ('eq', T.const(1), ln), ('lt', ln, T.const(2))):
                many = not x
        if many is None:
            rep.ob('onesource/count', not seen, 'the number of sources is judged by %s' % ' '.join(T.show(k) for k in seen), where(f), 'connections')
            continue
        n += 1
        rep.ob('onesource', said == many, 'a target with %s is %s' % (('several sources', 'accepted') if many else ('one source', 'rejected')), where(f), 'connections')
    rep.need(n >= 2 or rep.bad, '_setup_connections: the count of the sources of a target was not found')


# ---------------------------------------------------------------- names
def raises_table(repo, rep, cls, name, key, atoms, classify, expected, client=None, env=None, possible=None):
    f = repo.method(repo.cls(cls), name) if cls else repo.func(name)
    rep.fn(f.qualname)
    c = client or Trace(calls=('append', 'match', 'group'))
    res, out, I = traces(repo, f, f.cls, client=c, env=env or {})
    ps = [p for p in paths_of(res, out) if not (p[4] and p[2][0] == 'exc')]
    rep.need(len(ps) >= 2, '%s: paths not found' % f.qualname)
    table(rep, key, ps, atoms, classify, expected, lambda p: p[4], f, possible)
    return ps, f


def isnone_call(t, nm):
    return t[0] == 'is' and T.NONE in t[1:] and any(y[0] == 'call' and ext_tail(y[1]) == nm for y in t[1:])


def matches_whole(t, name):
    """match.group() == name"""
    return t[0] == 'eq' and name in t[1:] and any(y[0] == 'call' and ext_tail(y[1]) == 'group' for y in t[1:])


def names(repo, rep):
    N = ('param', 'name')

    def cls_add(t, x):
        t, x = strip_not(t, x)
        if t == ('attr', T.SELF, '_order_set'):
            return [('ordered', x)]
        if t[0] == 'in' and t[1] == N and ('attr', T.SELF, '_subsystems') in (t[2], t[2][1][1] if t[2][0] == 'call' and t[2][1][0] == 'attr' else None):
            return [('exists', x)]
        if t[0] == 'call' and t[1] == ('ext', 'hasattr') and t[2] == (T.SELF, N):
            return [('attribute', x)]
        if isnone_call(t, 'match'):
            return [('matches', not x)]
        if matches_whole(t, N):
            return [('whole', x)]

    def exp_add(d):
        if d['exists'] and not d['attribute']:
            return None
        return d['ordered'] or d['exists'] or d['attribute'] or not (d['matches'] and d['whole'])
    raises_table(repo, rep, 'Group', 'add', 'subsystem names', ['ordered', 'exists', 'attribute', 'matches', 'whole'], cls_add, exp_add)

    def cls_var(t, x):
        t, x = strip_not(t, x)
        if t == ('attr', T.SELF, '_post_setup_vars'):
            return [('late', x)]
        if t[0] == 'in' and t[1] == N and t[2][0] == 'attr' and t[2][2] in ('_init_params_dict', '_init_unknowns_dict'):
            return [(t[2][2], x)]
        if isnone_call(t, 'match'):
            return [('matches', not x)]
        if matches_whole(t, N):
            return [('whole', x)]
    raises_table(repo, rep, 'Component', '_check_varname', 'variable names', ['late', '_init_params_dict', '_init_unknowns_dict', 'matches', 'whole'], cls_var,
                 lambda d: d['late'] or d['_init_params_dict'] or d['_init_unknowns_dict'] or not (d['matches'] and d['whole']))
    # every declaration goes through the check of the name
    comp = repo.cls('Component')
    for nm in ('add_param', 'add_output', 'add_state'):
        f = repo.method(comp, nm)
        rep.fn(f.qualname)
        res, out, I = traces(repo, f, comp, client=Trace(calls=('_check_varname',)))
        for ev, facts, v, st in res:
            sets = [i for i, e in enumerate(ev) if e[0] == 'set' and e[1][0] == 'sub' and e[1][1][0] == 'attr' and e[1][1][2] in ('_init_params_dict', '_init_unknowns_dict')]
            chk = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == '_check_varname' and e[3] == (N,)]
            rep.ob('declared/' + nm, bool(sets) and bool(chk) and chk[0] < sets[0], 'a variable is added without checking its name', where(f), 'names')


def promotes(repo, rep):
    cls = repo.cls('Group')
    f = repo.method(cls, '_setup_variables')
    rep.fn(f.qualname)
    c = Trace(calls=('_check_promotes', 'append', 'setdefault'), cells=lambda c: c[0] == 'sub')
    c.havoc_containers = True
    res, out, I = traces(repo, f, cls, client=c)
    n = 0
    subs = ('attr', T.SELF, '_subsystems')
    for p in paths_of(res, out):
        ev, facts, v, st, exc = p
        if exc and v[0] == 'exc' or facts.get(('nonempty', subs)) is not True:
            continue
        dup = []
        for k, x in facts.items():
            if k[0] == 'is' and T.NONE in k[1:]:
                g = next(y for y in k[1:] if y != T.NONE)
                if g[0] == 'get':
                    k, x = ('in', g[2], g[1]), not x
                elif g[0] == 'call' and g[1][0] == 'attr' and g[1][2] == 'get':
                    k, x = ('in', g[2][0], g[1][1]), not x
            if k[0] != 'in':
                continue
            m = k[2][1][1] if k[2][0] == 'call' and ext_tail(k[2][1]) == 'keys' else k[2]
            if any(e[0] == 'set' and e[1] == ('sub', m, k[1]) for e in ev) or exc and T.contains(k[1], lambda y: y[0] == 'attr' and y[2] == 'to_prom_uname' or y[0] == 'call' and ext_tail(y[1]) == '_promoted_name'):
                dup.append((k, x))
        if exc:
            rep.ob('promoted/duplicate', any(x for k, x in dup), 'rejects %s' % T.show(v), where(f), 'promotion')
            continue
        n += 1
        has = [k for k, x in facts.items() if k[0] == 'nonempty' and x and k[1][0] in ('sub', 'idx') and T.contains(k[1], lambda y: y[0] == 'call' and ext_tail(y[1]) == '_setup_variables')
               and (k[1][2] == T.const(1))]
        if has:
            rep.ob('promoted/unique', any(x is False for k, x in dup), 'two outputs promoted to one name are accepted', where(f), 'promotion')
        rep.ob('promoted/checked', any(e[0] == 'call' and e[1] == '_check_promotes' for e in ev), 'promotions that match nothing are accepted', where(f), 'promotion')
    rep.need(n >= 2, 'Group._setup_variables: paths not found')
    f = repo.method(repo.cls('System'), '_check_promotes')
    rep.fn(f.qualname)
    res, out, I = traces(repo, f, f.cls, client=Trace(calls=('match', 'group', 'fullmatch')))
    rx = ('attr', T.SELF, '_prom_regex')
    for p in paths_of(res, out):
        ev, facts, v, st, exc = p
        if exc and v[0] == 'exc':
            continue
        s = next((x for k, x in facts.items() if k[0] == 'call' and k[1] == ('ext', 'isinstance') and k[2] and k[2][0] == ('attr', T.SELF, '_promotes')), None)
        if s is not False:
            rep.ob('promotes/string', exc, 'a string is accepted as a list of promotions', where(f), 'promotion')
            continue
        if facts.get(('nonempty', rx)) is not True:
            rep.ob('promotes/none', not exc, 'a system that promotes nothing is rejected', where(f), 'promotion')
            continue
        found = any(x is False and isnone_call(k, 'match') for k, x in facts.items()) and any(
            x and k[0] == 'eq' and any(y[0] == 'call' and ext_tail(y[1]) == 'group' for y in k[1:]) and any(T.contains(y, lambda z: z[0] == 'attr' and z[2] == 'to_prom_name') for y in k[1:])
            for k, x in facts.items())
        rep.ob('promotes/match', exc or found, 'a promotion that matches nothing is accepted', where(f), 'promotion')
        rep.ob('promotes/found', not (exc and found), 'a promotion that matches is rejected', where(f), 'promotion')
    both = {y[2] for p in paths_of(res, out) for k in p[1] for y in T.subterms(k) if y[0] == 'attr' and y[2] in ('_params_dict', '_unknowns_dict')}
    rep.ob('promotes/all', both == {'_params_dict', '_unknowns_dict'}, 'promotions are matched against %s only' % sorted(both), where(f), 'promotion')


def explicit(repo, rep):
    """connections to names that do not exist"""
    cls = repo.cls('Group')
    f = repo.method(cls, '_get_explicit_connections')
    rep.fn(f.qualname)
    c = Faults(calls=('append', 'update', '_get_explicit_connections'), cells=lambda c: False)
    c.havoc_containers = True
    res, out, I = traces(repo, f, cls, client=c)
    src = ('attr', T.SELF, '_src')
    n = 0
    for ev, facts, v, st in res:
        per = [k[1] for k, x in facts.items() if k[0] == 'nonempty' and x and k[1][0] == 'sub' and k[1][1] == src]
        if not per:
            continue
        n += 1
        put = [e for e in ev if e[0] == 'call' and e[1] == 'append']
        empty = [k[1] for k, x in facts.items() if k[0] == 'nonempty' and x is False and T.contains(k[1], lambda y: y[0] == 'attr' and y[2] in ('to_abs_pnames', 'to_abs_uname'))]
        rep.ob('explicit/exist', bool(put) or bool(empty), 'a connection to or from a name that does not exist is dropped', where(f), 'names')
        for e in put:
            at = e[2][1]
            k = at[2][0] if at[0] == 'call' and at[2] else at[2] if at[0] == 'sub' else None
            ok = k is not None and k == ('elem', ('sub', ('attr', ('attr', T.SELF, '_sysdata'), 'to_abs_pnames'), ('elem', src)))
            rep.ob('explicit/target', ok, 'the connection is entered for %s' % (T.show(k) if k else '?'), e[5], 'names')
    rep.need(n >= 2, 'Group._get_explicit_connections: paths not found')
    raised = {T.show(v[1][1])[:9] if len(v) > 1 and isinstance(v[1], tuple) and len(v[1]) > 1 else '' for st, v in out.exc if v[0] == 'raised'}
    rep.ob('explicit/raises', any(v[0] == 'raised' for st, v in out.exc), 'unknown names never raise', where(f), 'names')


def indices(repo, rep):
    X = ('param', 'src_indices')

    def classify(t, x):
        t, x = strip_not(t, x)
        if t[0] == 'call' and t[1] == ('ext', 'isinstance') and t[2][0] == X:
            nm = ext_tail(t[2][1])
            return [({'string_types': 'string', 'str': 'string', 'basestring': 'string', 'ndarray': 'array', 'Iterable': 'iterable'}.get(nm, '?'), x)]
        if t[0] == 'call' and ext_tail(t[1]) == 'issubdtype' and ext_tail(t[2][1]) == 'integer':
            return [('array of integers' if t[2][0] == ('attr', X, 'dtype') else 'integer', x)]
        if t[0] == 'nonempty' and T.contains(t[1], lambda y: y == X):
            return [('any', x)]
        n = nonecheck(t, x)
        if n and n[0] == X:
            return [('given', n[1])]
        return None

    def expected(d):
        if d['string']:
            return True
        if d['array']:
            return not d['array of integers']
        if d['iterable'] and d['any']:
            return not d['integer']
        return False

    def possible(d):
        return not (d['string'] and (d['array'] or not d['iterable'])) and not (d['array'] and not d['iterable']) and (d['given'] or not (d['string'] or d['array'] or d['iterable']))
    raises_table(repo, rep, 'Group', 'connect', 'indices', ['string', 'array', 'iterable', 'array of integers', 'integer', 'any', 'given'], classify, expected, possible=possible)


# ---------------------------------------------------------------- inputs without a source
def sourceless(repo, rep):
    cls = repo.cls('Problem')
    f = repo.method(cls, '_check_input_diffs')
    rep.fn(f.qualname)
    c = Trace(calls=('append', 'remove', 'discard'), cells=lambda c: False)
    c.havoc_containers = True
    c.max_states = 20000
    res, out, I = traces(repo, f, cls, client=c)
    inp = ('attr', T.SELF, '_input_inputs')
    group = ('sub', inp, ('elem', inp))
    n = 0
    most = 0

    def has(t, k):
        return T.contains(t, lambda y: y == T.const(k))
    valcomps = set()
    for ev, facts, v, st in res:
        if facts.get(('nonempty', inp)) is not True or any(x and k[0] == 'nonempty' and T.contains(k, lambda y: y[0] == 'attr' and y[2] == 'to_abs_pnames') for k, x in facts.items()):
            continue
        n += 1
        said = [e for e in ev if e[0] == 'call' and e[1] == 'append' and e[2][1] == ('attr', T.SELF, '_setup_errors')]
        noted = [e for e in ev if e[0] == 'call' and e[1] == 'append' and e[2][1] != ('attr', T.SELF, '_setup_errors')]
        want = 0
        ud = None
        for k, x in facts.items():
            k, x = strip_not(k, x)
            if k[0] == 'comp' and has(k, 'val') and not has(k, 'units'):
                valcomps.add(k)
                want += bool(x)
            elif k[0] == 'call' and ext_tail(k[1]) == 'set' and T.contains(k, lambda y: y[0] == 'mu'):
                ud = x
        want += bool(ud)
        most = max(most, len(said))
        rep.ob('sourceless/said', len(said) == want, 'inputs that differ in %d ways get %d complaints' % (want, len(said)), where(f), 'sourceless')
        differ = [x for k, x in facts.items() if k[0] == 'eq' and has(k, 'units') and not T.contains(k, lambda y: y[0] == 'mu')]
        if facts.get(('nonempty', group)) is True and not differ and not noted and not said:
            itself = [x for k, x in facts.items() if k[0] == 'eq' and not has(k, 'units')]
            rep.ob('sourceless/units/itself', True in itself, 'the units of some input are not compared', where(f), 'sourceless')
        if facts.get(('nonempty', group)) is True and differ:
            rep.ob('sourceless/units', bool(noted) == (differ[0] is False), 'inputs whose units differ are not noted', where(f), 'sourceless')
    rep.need(n >= 4, '_check_input_diffs: the loop over connected inputs was not found')
    rep.ob('sourceless/both', most == 2, 'units and values are not both reported', where(f), 'sourceless')
    rep.need(valcomps or rep.bad, '_check_input_diffs: the comparison of values was not found')
    for k in valcomps:
        for conds in I.allconds.get(k, {}).values():
            rep.ob('sourceless/values/filtered', len(conds) == 1, 'initial values are compared by %d conditions' % len(conds), where(f), 'sourceless')
            value_filter(rep, conds, f)


def value_filter(rep, conds, f):
    """the condition under which a value counts as different"""
    src = ast.unparse(conds[0])

    def ev(n, a):
        if isinstance(n, ast.BoolOp):
            vs = [ev(x, a) for x in n.values]
            return all(vs) if isinstance(n.op, ast.And) else any(vs)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not ev(n.operand, a)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance':
            return a['array']
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = ast.unparse(n)
            pos = isinstance(n.ops[0], (ast.Eq, ast.Is))
            neg = isinstance(n.ops[0], (ast.NotEq, ast.IsNot))
            if not (pos or neg):
                raise LookupError
            atom = 'shape' if '.shape' in t else 'type' if 'type' in t else 'equal'
            return a[atom] if pos else not a[atom]
        if isinstance(n, ast.Call) and ext_name(n) in ('array_equal',):
            return a['shape'] and a['equal']
        if isinstance(n, ast.Call) and ext_name(n) in ('all', 'any'):
            inner = n.func.value if isinstance(n.func, ast.Attribute) and not n.args else n.args[0]
            return ev(inner, a)
        raise LookupError
    isarr = any(isinstance(x, ast.Attribute) and x.attr == 'shape' or isinstance(x, ast.Call) and ext_name(x) == 'array_equal' for x in ast.walk(conds[0]))
    bad = None
    import itertools
    try:
        for arr, shape, type_, eq in itertools.product((False, True), repeat=4):
            a = {'array': arr, 'shape': shape, 'type': type_, 'equal': eq}
            if isarr:
                want = not (arr and shape and eq)
            else:
                want = not type_ or not eq
            if ev(conds[0], a) != want:
                bad = a
                break
    except LookupError:
        return
    rep.ob('sourceless/values/%s' % ('arrays' if isarr else 'objects'), bad is None, 'differing initial values are judged by: %s' % src, where(f, conds[0]), 'sourceless')


def ext_name(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)


def check(repo, rep, tier):
    shapes(repo, rep)
    types(repo, rep)
    connections(repo, rep)
    setup(repo, rep)
    onesource(repo, rep)
    twice(repo, rep)
    names(repo, rep)
    promotes(repo, rep)
    explicit(repo, rep)
    indices(repo, rep)
    sourceless(repo, rep)
