"""S03: order of evaluation, coordinate update and recording (typestate over every recording driver and solver)."""
from sa import terms as T
from sa.interp import Client
from sa.util import *

EXPLANATION = (
    'Typestate analysis of every routine that records iterations: the events "iteration coordinate set", "model '
    'evaluated with that metadata" and "iteration recorded" are tracked on every path (helpers inlined).  Each '
    'recording must follow an evaluation made since the coordinate was last set, use the same metadata and system, '
    'carry the current value of the iteration counter, and happen once per coordinate; each evaluated iteration must '
    'be recorded before the next coordinate is set or the routine returns.  The metadata helpers are checked to nest '
    'the coordinate under a copy of the parent coordinate, and the recording manager to call every recorder once.')
RULE = 'per coordinate: set -> evaluate(+) -> record(1), same metadata object, current counter; one call per attached recorder'
ASSUMPTIONS = ['coordinate (0,...) marks the initial run of an algorithm, which need not be recorded',
               'single-process execution (no MPI) for the recording manager']

EVAL = ('children_solve_nonlinear', 'solve_nonlinear', '_sys_solve_nonlinear', 'apply_nonlinear', '_sys_apply_nonlinear')
RUNS = EVAL[:3]
ENTRY = [('NLGaussSeidel', 'solve'), ('Newton', 'solve'), ('RunOnce', 'solve'), ('BackTracking', 'solve'),
         ('Brent', 'solve'), ('Brent', '_eval'), ('Driver', 'run'), ('ScipyOptimizer', '_objfunc'),
         ('pyOptSparseDriver', '_objfunc'), ('PredeterminedRunsDriver', '_run_serial'),
         ('PredeterminedRunsDriver', '_run_par_doe')]


class Rec(Client):
    max_states = 120
    loop_passes = 3

    def __init__(self):
        self.bad = []
        self.records = 0
        self.evals = 0
        self.metas = []

    def init_auto(self):
        # meta, coord, evaluated with, system evaluated, recorded, previous coordinate
        return (None, None, False, None, False, None)

    def keyfact(self, t):
        return t[0] in ('is', 'nonempty', 'eq') or t[0] == 'sub'

    def assume(self, t):
        if t[0] == 'attr' and t[2] == '_load_balance':
            return False
        if t == ('ext', 'six.PY3'):
            return True
        return None

    def inline(self, I, fn, func):
        return func.name not in ('print_norm', 'get_objectives', 'get_constraints', 'set_desvar', 'get_desvar_metadata',
                                 'create_local_meta', 'update_local_meta') and \
            (fn[0] == 'attr' and (fn[1] == T.SELF or fn[1][0] == 'call') or fn[0] == 'func') and fn[0] != 'class'

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        meta, coord, ev, sysm, rec, prev = st.auto
        loc = I.loc(node)
        kw = dict(kwargs)
        if nm == 'create_local_meta':
            t = ('meta', node.lineno)
            self.metas.append((args, kw, loc))
            return [(st.setauto((t, ('tuple', (('const', 0),)), False, None, False, prev), (loc, nm)), t)]
        if nm == 'update_local_meta':
            a = list(args) + [kw[k] for k in ('local_meta', 'iteration') if k in kw]
            self.leave(st, loc)
            self.plain(a, loc)
            c = a[1] if len(a) > 1 else T.NONE
            if meta is None and c[0] == 'tuple' and c[1] and (c[1][0][0] == 'const' or c[1][0][0] == 'attr' and c[1][0][2] == 'iter_count'):
                # one iteration of a run that goes on elsewhere
                self.bad.append(('counter', 'every call names its iteration %s' % T.show(c), loc))
            if prev is not None and c == prev and not T.contains(c, lambda x: x[0] in ('mu', 'fresh', 'elem')):
                self.bad.append(('counter', 'the same iteration coordinate %s is used for two iterations' % T.show(c), loc))
            return [(st.setauto((a[0], c, False, None, False, prev), (loc, nm)), T.NONE)]
        if nm in EVAL and fn[0] == 'attr':
            self.evals += 1
            m = kw.get('metadata')
            if m is None and nm in RUNS:
                m = args[0] if nm == 'children_solve_nonlinear' and args else (args[3] if len(args) > 3 else None)
            if nm in RUNS and meta is not None and m != meta:
                self.bad.append(('nesting', 'the model is evaluated with metadata %s instead of this level\'s own' % (
                    T.show(m) if m else 'missing'), loc))
            I.excs.append((st.setauto((meta, coord, 'failed', fn[1], rec, prev)), ('exc', nm)))
            for ec in ('openmdao.core.system:AnalysisError',):
                I.excs.append((st.setauto((meta, coord, True, fn[1], rec, prev)),
                               ('raised', ('call', ('class', ec), (), (), None))))
            return [(st.setauto((meta, coord, True, fn[1], rec, prev), (loc, nm)), ('fresh', (nm, node.lineno)))]
        if nm in ('record_iteration', 'record_completed_case') and fn[0] == 'attr' and mentions_attr(fn[1], 'recorders'):
            self.records += 1
            a = list(args)
            s_arg = a[0] if a else kw.get('root')
            m = a[1] if len(a) > 1 else kw.get('metadata')
            dummy = kw.get('dummy')
            if m == T.NONE and st.auto[0] != T.NONE:
                return [(st, T.NONE)]      # placeholder taking part in a collective call
            if not ev:
                self.bad.append(('before-evaluation', 'recorded before the model was evaluated for this coordinate', loc))
            if rec:
                self.bad.append(('twice', 'recorded twice under one coordinate', loc))
            if meta is not None and m != meta:
                self.bad.append(('metadata', 'recorded with metadata %s, not the one just updated' % T.show(m or T.NONE), loc))
            if sysm is not None and s_arg is not None and s_arg != sysm and not same_root(s_arg, sysm):
                self.bad.append(('system', 'the recorded system %s is not the evaluated one %s' % (T.show(s_arg), T.show(sysm)), loc))
            if coord is None:
                self.bad.append(('coordinate', 'recorded although no iteration coordinate was set', loc))
            else:
                cnt = counters(st, fn)
                have = T.alts(coord)
                if cnt and all(c[0] == 'tuple' and c[1] for c in have):
                    have = [c[1][0] for c in have]        # the first entry is this level's own count
                if cnt and coord != ('tuple', (('const', 0),)) and not any(
                        T.contains(c, lambda x: x in cnt) for c in have):
                    self.bad.append(('coordinate', 'the coordinate %s does not carry the current iteration count' % T.show(coord), loc))
            return [(st.setauto((meta, coord, ev, sysm, True, coord), (loc, nm)), T.NONE)]
        return None

    def plain(self, a, loc):
        """every entry of a coordinate is one counter, not a mixture of several"""
        for c in T.alts(a[1] if len(a) > 1 else T.NONE):
            for e in (c[1] if c[0] == 'tuple' else ()):
                for x in T.alts(e):
                    if x[0] == 'bin' and x[1] in '+-' and x[3][0] == 'const':
                        x = x[2]
                    if x[0] not in ('const', 'attr', 'mu', 'param', 'fresh', 'elem', 'idx', 'sub'):
                        self.bad.append(('counter', 'the coordinate entry %s is not a plain iteration count' % T.show(x), loc))

    def leave(self, st, loc):
        meta, coord, ev, sysm, rec, prev = st.auto
        if ev is True and not rec and not initial(coord):
            self.bad.append(('unrecorded', 'an evaluated iteration with coordinate %s is never recorded' % T.show(coord or T.NONE), loc))


def initial(coord):
    return coord is None or (coord[0] == 'tuple' and all(x == ('const', 0) for x in coord[1]))


def same_root(a, b):
    return all(t == ('param', 'root') or t[0] == 'attr' and t[2] == 'root' for t in (a, b))


def counters(st, fn):
    """current values of the iteration counter(s) in scope"""
    out = set()
    owner = fn[1][1] if fn[1][0] == 'attr' else T.SELF
    for o in (T.SELF, owner):
        c = ('attr', o, 'iter_count')
        v = st.heap.get(c)
        if v is not None:
            out.add(v)
    if not out:
        out.add(('attr', owner, 'iter_count'))
        out |= {v for k, v in st.env.items() if k == 'iter_count'}
    return out


def routines(repo):
    """every routine that records, with the class it belongs to"""
    have = []
    for cn, mn in ENTRY:
        cls = repo.cls(cn)
        f = repo.method(cls, mn)
        if f is None:
            from sa.repo import AnalysisBroken
            raise AnalysisBroken('%s.%s not found' % (cn, mn))
        have.append((cls, f))
    return have


def check(repo, rep, tier):
    covered = set()
    todo = routines(repo)
    for f in repo.all_functions():
        if f.cls is not None and 'recorders' not in f.module.name and not any(f.node is g.node for _, g in todo):
            names = {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            if 'record_iteration' in names and names & set(EVAL):
                todo.append((f.cls, f))
    for cls, f in todo:
        c = Rec()
        I, out = run(repo, c, f, self_cls=cls)
        rep.fn(f.qualname, *I.inlined)
        key = '%s.%s' % (cls.name, f.name)
        rep.saw('record_sites', c.records)
        rep.saw('evaluations', c.evals)
        if (cls.name, f.name) in ENTRY:
            rep.ob(key + '/records', c.records > 0, 'iterations are not recorded any more', where(f), 'typestate')
        for st, _ in out.ret:
            c.leave(st, where(f))
        rules = ('before-evaluation', 'twice', 'metadata', 'system', 'coordinate', 'unrecorded', 'counter', 'nesting')
        for r in rules:
            hits = [b for b in c.bad if b[0] == r]
            rep.ob('%s/%s' % (key, r), not hits, hits[0][1] if hits else '', hits[0][2] if hits else where(f), 'typestate')
        solver = repo.cls('SolverBase') in repo.mro(cls) or any(b.name.endswith('LineSearch') for b in repo.mro(cls))
        for args, kw, loc in c.metas:
            parent = args[0] if args else kw.get('metadata')
            if solver:
                ok = parent == ('param', 'metadata')
            else:
                ok = parent == T.NONE
            rep.ob(key + '/parent', ok, 'the iteration coordinate is nested under %s' % T.show(parent or T.NONE), loc, 'nesting')
    driver_runs(repo, rep)
    helpers(repo, rep)
    manager(repo, rep)


def driver_runs(repo, rep):
    """every model run a driver starts is nested under the driver's own coordinate"""
    base = repo.cls('Driver')
    for f in repo.all_functions():
        if f.cls is None or base not in repo.mro(f.cls):
            continue
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'solve_nonlinear'):
                continue
            v = [k.value for k in n.keywords if k.arg in ('metadata', None)] + list(n.args[3:4])
            if any(isinstance(a, ast.Starred) for a in n.args):
                continue
            rep.saw('driver_runs')
            rep.ob('%s.%s/driver-run' % (f.cls.name, f.name), bool(v) and not (isinstance(v[0], ast.Constant) and v[0].value is None),
                   'the model is run without the iteration coordinate of the driver', where(f, n), 'nesting')


def mpi_name(t):
    return t[0] in ('global', 'ext', 'attr') and isinstance(t[-1], str) and t[-1].split('.')[-1] == 'MPI'


class Plain(Client):
    max_states = 60
    generic_loops = True

    def __init__(self, mpi=None):
        self.mpi = mpi
        self.calls = []
        self.stores = []

    def assume(self, t):
        if self.mpi is not None:
            if mpi_name(t):
                return self.mpi
            if t[0] == 'is' and t[2] == T.NONE and mpi_name(t[1]):
                return not self.mpi
        return None

    def keyfact(self, t):
        return t[0] in ('nonempty', 'is')

    def nothrow(self, I, st, fn, node):
        return True

    def on_store(self, I, st, cell, value, node):
        self.stores.append((cell, value, I.loc(node)))
        return st

    def on_aug(self, I, st, cell, old, op, value, node):
        self.stores.append((cell if cell[0] != 'local' else old, ('aug', op, value), I.loc(node)))
        return st


def helpers(repo, rep):
    f = repo.func('record_util.create_local_meta')
    c = Plain()
    I, out = run(repo, c, f)
    rep.fn(f.qualname)
    n = 0
    for st, v in out.ret:
        for a in T.alts(v):
            co = st.heap.get(('sub', a, ('const', 'coord')))
            if co is None and a[0] == 'dict':
                co = next((y for x, y in a[1] if x == ('const', 'coord')), None)
            for x in T.alts(co or T.NONE):
                n += 1
                ok = x[0] == 'bin' and x[1] == '+' and x[3][0] == 'list' and len(x[3][1]) == 2 and (
                    x[2][0] == 'list' or x[2] == ('sub', ('param', 'metadata'), ('const', 'coord')))
                if not ok and x[0] == 'list' and any(y[0] == 'star' for y in x[1]):
                    ok = True
                rep.ob('create_local_meta/nested-copy', ok, 'the new coordinate is %s, not the parent coordinate extended by '
                       'this level\'s name and iteration' % T.show(x), where(f), 'nesting')
                if ok and x[0] == 'bin':
                    has = T.contains(x[3], lambda y: y == ('param', 'name')) or T.contains(x[3], lambda y: y == ('const', 'root'))
                    rep.ob('create_local_meta/named', has, 'the coordinate does not carry the level name', where(f), 'nesting')
    rep.need(n, 'create_local_meta: coordinate not found')
    for cell, v, loc in c.stores:
        rep.ob('create_local_meta/parent-untouched', not T.contains(cell, lambda x: x == ('param', 'metadata')),
               'the parent metadata is modified: %s' % T.show(cell), loc, 'nesting')
    f = repo.func('record_util.update_local_meta')
    c = Plain()
    I, out = run(repo, c, f)
    rep.fn(f.qualname)
    cell = ('sub', ('sub', ('param', 'local_meta'), ('const', 'coord')), ('const', -1))
    for st, _ in out.ret:
        v = st.heap.get(cell)
        rep.ob('update_local_meta/last-entry', v is not None and all(
            T.contains(a, lambda x: x == ('param', 'iteration')) for a in T.alts(v)),
            'the last coordinate entry is not set to the iteration', where(f), 'nesting')
        others = [k for k in st.heap if k != cell and k[0] in ('sub', 'attr')]
        rep.ob('update_local_meta/only-last', not others, 'also changes %s' % [T.show(k) for k in others], where(f), 'nesting')


class Mgr(Plain):
    generic_loops = True

    def init_auto(self):
        return ()

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) == 'record_iteration' and fn[0] == 'attr' and fn[1] != T.SELF:
            self.calls.append((args, kwargs, I.loc(node)))
            return [(st.setauto(st.auto + (fn[1],)), T.NONE)]
        return None


def manager(repo, rep):
    cls = repo.cls('RecordingManager')
    for name in ('record_iteration', 'record_completed_case'):
        f = repo.method(cls, name)
        rep.need(f is not None, 'RecordingManager.%s not found' % name)
        c = Mgr(False)
        I, out = run(repo, c, f, self_cls=cls)
        rep.fn(f.qualname)
        recs = ('attr', T.SELF, '_recorders')
        for st, _ in out.ret:
            none = st.facts.get(recs) is False or st.facts.get(('nonempty', recs)) is False
            if none:
                rep.ob('RecordingManager.%s/empty' % name, not st.auto, 'records without recorders', where(f), 'manager')
                continue
            if name == 'record_iteration' and any(k[0] == 'is' and v and T.contains(k, lambda x: x == ('param', 'root')) for k, v in st.facts.items()):
                continue
            if name == 'record_iteration' and any(k[0] == 'nonempty' and v is False for k, v in st.facts.items()):
                continue
            rep.ob('RecordingManager.%s/once' % name, len(st.auto) == 1 and T.contains(st.auto[0], lambda x: x == recs),
                   'a recorder is called %d times for one iteration' % len(st.auto), where(f), 'manager')
            rep.saw('manager_paths')
        early = [n for lp in ast.walk(f.node) if isinstance(lp, ast.For) for n in ast.walk(lp)
                 if isinstance(n, (ast.Break, ast.Return))]
        rep.ob('RecordingManager.%s/all' % name, not early, 'the loop over the recorders is left before every recorder '
               'was called', where(f, early[0]) if early else where(f), 'manager')
        for args, kwargs, loc in c.calls:
            if name == 'record_iteration':
                root = ('param', 'root')
                want = [('params',), ('unknowns',), ('resids',)]
                for i, w in enumerate(want):
                    ok = i < len(args) and all(a == ('attr', root, w[0]) for a in T.alts(args[i]) if a[0] != 'sub')
                    rep.ob('RecordingManager.%s/argument/%s' % (name, w[0]), ok, 'recorders receive %s as %s' % (
                        T.show(args[i]) if i < len(args) else 'nothing', w[0]), loc, 'manager')
                rep.ob('RecordingManager.%s/argument/metadata' % name, len(args) > 3 and args[3] == ('param', 'metadata'),
                       'recorders receive other metadata', loc, 'manager')
            else:
                for i, w in enumerate(('p', 'u', 'r', 'meta')):
                    ok = i < len(args) and args[i] == ('sub', ('param', 'case'), ('const', w))
                    rep.ob('RecordingManager.%s/argument/%s' % (name, w), ok, 'recorders receive %s as %s' % (
                        T.show(args[i]) if i < len(args) else 'nothing', w), loc, 'manager')
        rep.need(c.calls, 'RecordingManager.%s: recorders not called' % name)
