"""S02: stopping logic and convergence verdict of the iterative solvers."""
from sa import terms as T
from sa.interp import Client, mkbin
from sa.util import *

EXPLANATION = (
    'The solve() routine of every iterative solver is interpreted path-sensitively with the residual norm as a '
    'symbolic value that each model evaluation makes stale and each norm evaluation makes current.  Along every path '
    'the decided comparisons are classified as: iterations remain, a tolerance is unmet (absolute on the current norm, '
    'relative on current/initial norm, step size), norm not finite.  At each iteration iterations must remain and all '
    'tolerances must be unmet; at each exit the verdict (analysis error, reported failure, success) must agree with '
    'the classified facts.  For solvers that delegate to library routines the limits passed and the mapping of the '
    'return code to the verdict are decided the same way.')
RULE = 'iterate iff (count < maxiter and every tolerance unmet on the current norm); success only if met and finite; failure => error or report'
ASSUMPTIONS = ['tolerances are smaller than the placeholder norms used before the first evaluation',
               'a solver limited to a single pass makes no convergence claim',
               'comparisons of a NaN are false (IEEE)']

OPTS = ('maxiter', 'atol', 'rtol', 'utol', 'c')
EVALS = ('children_solve_nonlinear', 'apply_nonlinear', 'solve_linear', '_sys_linearize')


def mark_cache(st, state):
    c = st.env.get('$cache')
    if c is None:
        return st
    alts = [('tuple', (x[1][0], ('const', 'stale' if state == 'ran' and x[1][1][1] == 'stale' else state), x[1][2]))
            for x in T.alts(c) if x[0] == 'tuple']
    if not alts:
        return st
    return st.bind('$cache', alts[0] if len(set(alts)) == 1 else ('phi', frozenset(alts)))


def is_live(t):
    """the unknowns vector itself, not a copy"""
    return t[0] == 'attr' and t[2] == 'vec' or t[0] == 'sub' and t[2][0] == 'slice' and is_live(t[1]) or \
        t[0] == 'mu' and t[2] and isinstance(t[2], tuple) and is_live(t[2])


def is_copy(t):
    return t[0] == 'call' and (ext_tail(t[1]) in ('copy', 'array')) and has_unknowns(t)


def has_unknowns(t):
    return T.contains(t, lambda x: x[0] == 'attr' and x[2] == 'vec' and x[1] == ('param', 'unknowns'))


def opt(t):
    """name of the option a term denotes"""
    if t[0] == 'sub' and t[1] == ('attr', T.SELF, 'options') and t[2][0] == 'const':
        return t[2][1]
    return None


def is_norm(t):
    if t[0] == 'norm':
        return True
    if t[0] == 'phi':
        return all(is_norm(x) or x[0] == 'const' for x in t[1]) and any(is_norm(x) for x in t[1])
    return False


def norm_alts(t):
    return [x for x in (t[1] if t[0] == 'phi' else [t]) if x[0] != 'const']


def cur(t):
    """the current norm (or a placeholder constant before the first evaluation)"""
    return is_norm(t) and all(x[1] != 'bad' and x[2] == 'cur' for x in norm_alts(t)) or t[0] == 'const'


def base(t):
    """the initial norm or a constant"""
    if t[0] == 'const':
        return True
    return is_norm(t) and all(x[1] == 'init' for x in norm_alts(t))


def hasopt(t, name):
    return T.contains(t, lambda x: opt(x) == name)


def classify(t):
    """(kind, negated) of an atom: I = iterations remain, A/R/U = that tolerance is unmet, N = norm not finite"""
    if t[0] in ('lt', 'le'):
        a, b = t[1], t[2]
        if opt(b) == 'maxiter':
            return ('I', True, a) if t[0] == 'lt' else ('I?', True, a)
        if opt(a) == 'maxiter':
            return ('I', False, b) if t[0] == 'le' else ('I?', False, b)
        # a < b : tolerance < norm means unmet
        for tol, other, unmet in ((a, b, True), (b, a, False)):
            o = opt(tol)
            if o == 'atol':
                return ('A' if cur(other) else 'A?', unmet, other)
            if o == 'utol':
                return ('U' if ustep(other) else 'U?', unmet, other)
            if o == 'rtol':
                if other[0] == 'bin' and other[1] == '/' and cur(other[2]) and base(other[3]):
                    return ('R', unmet, other)
                return ('R?', unmet, other)
            if tol[0] == 'bin' and tol[1] == '*' and 'rtol' in (opt(tol[2]), opt(tol[3])):
                o2 = tol[3] if opt(tol[2]) == 'rtol' else tol[2]
                if cur(other) and base(o2):
                    return ('R', unmet, other)
                return ('R?', unmet, other)
            if hasopt(tol, 'c') and not hasopt(other, 'c'):
                return ('A', not unmet, other)
    if t[0] == 'eq' and opt(t[1]) == 'maxiter':
        if t[2] == ('const', 1):
            return ('single', True, t[2])
        return ('I?', True, t[2])
    if t[0] == 'call':
        nm = ext_tail(t[1])
        if nm in ('isnan', 'isinf', 'isfinite') and t[2]:
            ok = cur(t[2][0]) and t[2][0][0] != 'const' or t[2][0][0] == 'const'
            k = {'isnan': 'N', 'isinf': 'INF', 'isfinite': 'FIN'}[nm]
            return (k if ok else k + '?', True, t[2][0])
    if opt(t) == 'err_on_maxiter':
        return ('E', True, None)
    return None


def counts(c):
    return [x for x in (c[1] if c[0] == 'phi' else [c]) if x[0] == 'tuple']


def ustep(t):
    if t[0] == 'unorm':
        return t[2] == 'cur'
    if t[0] == 'const':
        return True
    return t[0] == 'phi' and all(ustep(x) for x in t[1])


class Verdict(Client):
    loop_passes = 3
    max_states = 400

    def __init__(self, iprint, evals, kinds):
        self.iprint, self.evals, self.kinds = iprint, evals, kinds
        self.problems = []
        self.iters = 0
        self.exits = []

    def init_auto(self):
        return ('clean', 0, frozenset(), False)      # residuals, loop depth, reports, iteration begun

    def keyfact(self, t):
        return classify(t) is not None

    def nowiden(self, t):
        return t[0] in ('norm', 'unorm') or (t[0] == 'const' and isinstance(t[1], float)) or (t[0] in ('phi', 'bin') and T.contains(t, lambda x: x[0] in ('norm', 'unorm'))
                                             and T.size(t) < 30)

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF or fn[0] == 'func' and func.module is I.frames[0].func.module

    def nothrow(self, I, st, fn, node):
        return True

    def assume(self, t):
        if t[0] in ('lt', 'le'):
            if opt(t[1]) in ('atol', 'rtol', 'utol') and (t[2][0] == 'const' or (
                    t[2][0] == 'bin' and t[2][2][0] == 'const' and t[2][3][0] == 'const')):
                return True
        if t[0] == 'call' and ext_tail(t[1]) in ('isnan', 'isinf') and t[2] and t[2][0][0] == 'const':
            return False
        if t[0] == 'call' and ext_tail(t[1]) == 'isfinite' and t[2] and t[2][0][0] == 'const':
            return True
        return None

    def invalidate(self, st, kinds=('norm', 'unorm'), drop=False):
        def f(x):
            if x[0] in kinds and x[2] == 'cur':
                return (x[0], x[1], 'old')
            return x
        env = {k: (T.subst(v, f) if v[0] != 'env' else v) for k, v in st.env.items()}
        heap = {k: (T.subst(v, f) if isinstance(v, tuple) else v) for k, v in st.heap.items()}
        facts = {k: v for k, v in st.facts.items()
                 if not T.contains(k, lambda x: x[0] in kinds)}
        return st.w(env=env, heap=heap, facts=facts)

    def on_loop_enter(self, I, st, node):
        if isinstance(node, ast.While) or isinstance(node, ast.For):
            a, d, r, b = st.auto
            return st.setauto((a, d + 1, r, b and d > 0))
        return st

    def on_loop_exit(self, I, st, node):
        a, d, r, b = st.auto
        return st.setauto((a, max(d - 1, 0), r, b))

    def special(self, st, c):
        """a comparison of maxiter with one that is not the loop's own counter"""
        cnt = st.env.get('$count')
        return c[2] == ('const', 1) and cnt is not None and all(x[1][0] != ('const', 1) for x in counts(cnt))

    def facts_of(self, st):
        out = {}
        for t, v in st.facts.items():
            c = classify(t)
            if c is None:
                continue
            k, pos, other = c
            if k == 'I' and self.special(st, c):
                k, pos = 'single', not pos
            out[k] = (v == pos, other)
        return out

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        res, depth, rep, begun = st.auto
        if nm in self.evals:
            main = not begun
            st2 = self.invalidate(st)
            if nm != '_sys_linearize':
                st2 = mark_cache(st2, 'ran')
            if main and depth > 0:
                # an iteration is being performed
                self.iters += 1
                f = self.facts_of(st)
                for k in ('I',) + tuple(self.kinds):
                    if k not in f or f[k][0] is not True:
                        extra = [x for x in f if x.endswith('?')]
                        self.problems.append((
                            'iterates/' + k, 'an iteration is performed without knowing that %s%s' % (
                                {'I': 'iterations remain (count < maxiter)', 'A': 'the absolute tolerance is unmet on the current residual norm',
                                 'R': 'the relative tolerance is unmet on current/initial norm',
                                 'U': 'the step tolerance is unmet'}[k],
                                '; instead compares ' + ', '.join(T.show(f[x][1])[:60] for x in extra) if extra else ''), I.loc(node)))
            st2 = st2.setauto(('clean' if nm in ('apply_nonlinear', 'solve_linear') else 'dirty', depth, rep, begun or depth > 0), (I.loc(node), nm))
            return [(st2, ('fresh', ('ran', node.lineno)))]
        if nm in ('norm', '_norm') and not (fn[0] == 'ext'):
            st2 = self.invalidate(st, ('norm',))
            return [(st2, ('norm', 'bad' if res == 'dirty' else 'init' if depth == 0 else 'iter', 'cur'))]
        if fn[0] == 'ext' and fn[1] == 'numpy.copyto' and len(args) > 1 and has_unknowns(args[1]) and not is_live(args[0]):
            return [(st.bind('$cache', ('tuple', (args[0], ('const', 'copied'), args[1]))), T.NONE)]
        if fn[0] == 'ext' and fn[1].endswith('linalg.norm'):
            return [(st, ('unorm', T.show(args[0])[:80] if args else '', 'cur' if depth == 0 or self.step_of_iteration(st, args) else 'bad'))]
        if nm == 'solve' and fn[0] == 'attr' and mentions_attr(fn[1], 'line_search'):
            st2 = self.invalidate(st, ('norm',))
            return [(st2, ('norm', 'iter', 'cur'))]
        if nm in ('print_norm', 'print', 'write'):
            txt = ' '.join(x[1] for a in list(args) + [v for _, v in kwargs] for x in T.subterms(a)
                           if x[0] == 'const' and isinstance(x[1], str)).lower()
            r = rep
            if 'fail' in txt:
                r = r | {'failed'}
            elif 'converged' in txt:
                r = r | {'converged'}
            return [(st.setauto((res, depth, r, begun)), T.NONE)]
        if nm == 'record_iteration' or nm in ('create_local_meta', 'update_local_meta'):
            return [(st, ('fresh', (nm, node.lineno)))]
        return None

    def on_store(self, I, st, cell, value, node):
        if cell[0] == 'sub' and cell[2][0] == 'slice' and has_unknowns(value) and not is_live(cell[1]):
            st = st.bind('$cache', ('tuple', (cell[1], ('const', 'copied'), value)))
        return st

    def step_of_iteration(self, st, args):
        """is the argument (unknowns now) - (a copy of the unknowns taken in this iteration, before the model was run)?"""
        if not args or args[0][0] != 'bin' or args[0][1] != '-':
            return False
        a, b = args[0][2], args[0][3]
        if is_copy(a):
            a, b = b, a
        if is_copy(b):
            return has_unknowns(a)
        if is_live(b):
            a, b = b, a
        cs = [c for c in T.alts(st.env.get('$cache', T.NONE)) if c[0] == 'tuple']
        if not cs or is_live(b) or any(c[1][1][1] != 'ran' for c in cs):
            return False
        full = ('slice', T.NONE, T.NONE, T.NONE)
        return has_unknowns(a) and any(b == c[1][0] or b == c[1][2] or b == st.heap.get(('sub', c[1][0], full)) or
                                       T.same(b, c[1][0]) for c in cs)

    def on_branch(self, I, st, cond, val, node):
        if cond not in st.facts and self.assume(cond) is not None:
            st = st.w(facts={**st.facts, cond: val})
        c = classify(cond)
        if c and c[0] == 'I' and self.special(st, c):
            return st
        if c and c[0] == 'I':
            cnt = c[2]
            names = [('v', k) for k, v in st.env.items() if v == cnt] + [('h', k) for k, v in st.heap.items() if v == cnt]
            if cnt[0] == 'attr':
                names.append(('h', cnt))
            st = st.bind('$count', ('tuple', (cnt, ('const', tuple(sorted(names, key=repr))))))
        return st

    def on_loop_back(self, I, st, node):
        a, d, r, b = st.auto
        if d == 1:
            st = st.setauto((a, d, r, False))
            st = mark_cache(st, 'stale')
        if not isinstance(node, ast.While) and '$count' not in st.env:
            return st
        c = st.env.get('$count')
        if c is not None and len(I.frames) == 1 and isinstance(node, ast.While):
            ok = False
            for alt in counts(c):
                cnt, names = alt[1][0], alt[1][1][1]
                want = mkbin('+', cnt, ('const', 1))
                for kind, k in names:
                    v = st.env.get(k) if kind == 'v' else st.heap.get(k, k)
                    if v is not None and (v == want or T.same(v, want)):
                        ok = True
            if not ok:
                self.problems.append(('counts', 'an iteration ends without adding exactly one to the iteration count that limits it', I.loc(node)))
        return st


def verdicts(repo, rep, cls, iprint, evals, kinds, can_raise):
    f = repo.method(cls, 'solve')
    c = Verdict(iprint, evals, kinds)
    heap = {('sub', ('attr', T.SELF, 'options'), ('const', 'iprint')): ('const', iprint)}
    env = {}
    for a in f.node.args.args:
        if 'norm' in a.arg:
            env[a.arg] = ('norm', 'init', 'old' if 'base' in a.arg or a.arg.endswith('0') else 'cur')
    I, out = run(repo, c, f, self_cls=cls, heap=heap, env=env)
    rep.fn(f.qualname, *I.inlined)
    key = '%s.solve' % cls.name
    rep.need(c.iters, '%s: no iteration found' % key)
    rep.saw('iterations_analysed', c.iters)
    for k, msg, loc in c.problems:
        rep.ob('%s/%s' % (key, k), False, msg, loc, 'iterate')
    for k in ('I',) + tuple(kinds):
        rep.ob('%s/iterates/%s' % (key, k), True, where=where(f), rule='iterate')
    n = 0
    for st, exc in [(s, None) for s, _ in out.ret] + [(s, e) for s, e in out.exc]:
        fx = c.facts_of(st)
        get = lambda k: fx[k][0] if k in fx else None
        if get('single') is True and 'I' not in fx or 'single' in fx and fx['single'][0]:
            continue
        if get('I') is False and fx['I'][1] in (('const', 0), ('const', 1)) and 'A' not in fx:
            continue            # no iteration is permitted at all
        n += 1
        reports = st.auto[2]
        nonfinite = get('N') is True or get('INF') is True or get('FIN') is False
        finite = get('FIN') is True or get('N') is False
        met = any(get(k) is False for k in kinds)
        more = get('I')
        raised = exc is not None
        isana = raised and T.contains(exc, lambda x: x[0] in ('class', 'ext') and x[1].endswith('AnalysisError'))
        failed = isana or 'failed' in reports
        desc = 'exit with %s' % ', '.join('%s=%s' % (k + (':' + T.show(v[1])[:40] if '?' in k else ''), v[0]) for k, v in sorted(fx.items()))
        if raised and not isana:
            rep.ob(key + '/raises', False, 'stops with %s' % T.show(exc), where(f), 'verdict')
            continue
        if 'converged' in reports and failed:
            rep.ob(key + '/verdict/contradiction', False, 'both convergence and failure are reported (%s)' % desc, where(f), 'verdict')
        if not failed:
            rep.ob(key + '/verdict/success', met and finite,
                   'returns as converged although %s (%s)' % ('the norm may be NaN' if met else 'no tolerance is known to be met', desc),
                   where(f), 'verdict')
        else:
            rep.ob(key + '/verdict/failure', more is False or nonfinite,
                   'signals failure although iterations remain and the norm is finite (%s)' % desc, where(f), 'verdict')
        if not failed and more is True and not met and not nonfinite:
            rep.ob(key + '/stops-early', False, 'stops although iterations remain and no tolerance is met (%s)' % desc, where(f), 'verdict')
        if can_raise and failed:
            e = get('E')
            rep.ob(key + '/verdict/error-option', (isana and e is True) or (not isana and e is False),
                   'failure %s although err_on_maxiter is %s' % ('raises' if isana else 'is only reported', e), where(f), 'verdict')
        # an infinite initial norm makes the ratio NaN: the loop stops without a tolerance being met
        if not failed and get('R') is False and 'R' in kinds and hasinit(fx):
            rep.ob(key + '/verdict/infinite', get('INF') is False or get('FIN') is True,
                   'an infinite initial norm passes as converged (%s)' % desc, where(f), 'verdict')
    rep.need(n, '%s: no exit found' % key)
    rep.saw('exits', n)


def hasinit(fx):
    o = fx['R'][1]
    return o[0] == 'bin' and is_norm(o[3])


class Lib(Client):
    """solvers that delegate to a library routine"""
    max_states = 200

    def __init__(self, routine):
        self.routine = routine
        self.calls = []

    def init_auto(self):
        return (False, frozenset())

    def nothrow(self, I, st, fn, node):
        return True

    def keyfact(self, t):
        return True

    def assume(self, t):
        return None

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm == self.routine or (nm == 'setTolerances' and self.routine == 'ksp'):
            self.calls.append((st, args, dict(kwargs), I.loc(node)))
            st = st.setauto((True, st.auto[1]), (I.loc(node), nm))
            if nm == 'brentq':
                I.excs.append((st.setauto(('threw', st.auto[1])), ('raised', ('call', ('ext', 'RuntimeError'), (), (), None))))
            return [(st, ('lib', nm))]
        if nm == 'solve' and self.routine == 'ksp' and fn[0] == 'attr' and mentions_attr(fn[1], 'ksp'):
            return [(st.setauto((True, st.auto[1])).put(('attr', T.SELF, 'iter_count'), ('fresh', 'iterations')), T.NONE)]
        if nm in ('print_norm', 'print'):
            txt = ' '.join(x[1] for a in list(args) + [v for _, v in kwargs] for x in T.subterms(a)
                           if x[0] == 'const' and isinstance(x[1], str)).lower()
            r = st.auto[1]
            vals = list(args) + [v for _, v in kwargs]
            if 'fail' in txt or any(T.contains(v, lambda x: x[0] == 'exc' or x[0] == 'raised' or x == ('ext', 'RuntimeError')) for v in vals):
                r = r | {'failed'}
            elif 'converged' in txt:
                r = r | {'converged'}
            return [(st.setauto((st.auto[0], r)), T.NONE)]
        return None


def O(n):
    return ('sub', ('attr', T.SELF, 'options'), ('const', n))


def gmres(repo, rep, iprint):
    cls = repo.cls('ScipyGMRES')
    f = repo.method(cls, 'solve')
    c = Lib('gmres')
    c.generic_loops = True
    I, out = run(repo, c, f, self_cls=cls, heap={O('iprint'): ('const', iprint)})
    rep.fn(f.qualname)
    rep.need(c.calls, 'gmres is not called')
    for st, args, kw, loc in c.calls:
        for k, o in (('tol', 'atol'), ('maxiter', 'maxiter'), ('restart', 'restart')):
            rep.ob('ScipyGMRES.solve/limit/' + k, kw.get(k) == O(o), '%s of the linear solve is %s' % (k, T.show(kw.get(k, T.NONE))), loc, 'limits')
        rep.ob('ScipyGMRES.solve/limit/callback', kw.get('callback') is not None and ext_tail(kw['callback']) == 'monitor',
               'iterations are not counted', loc, 'limits')
        rep.ob('ScipyGMRES.solve/count-reset', st.heap.get(('attr', T.SELF, 'iter_count')) == ('const', 0),
               'the iteration count is not reset before a solve', loc, 'limits')
    info = ('sub', ('lib', 'gmres'), ('const', 1))
    n = 0
    for st, exc in [(s, None) for s, _ in out.ret] + list(out.exc):
        if not st.auto[0]:
            continue
        n += 1
        z = ('const', 0)
        pos = st.facts.get(('lt', z, info))
        if pos is None and ('le', info, z) in st.facts:
            pos = not st.facts[('le', info, z)]
        neg = st.facts.get(('lt', info, z))
        eq = st.facts.get(('eq', info, z))
        e = st.facts.get(O('err_on_maxiter'))
        isana = exc is not None and T.contains(exc, lambda x: x[0] in ('class', 'ext') and x[1].endswith('AnalysisError'))
        bad = None
        if exc is not None and not isana:
            if neg is not True:
                bad = 'raises %s although the solve did not break down' % T.show(exc)[:80]
        elif isana:
            if pos is not True and not (eq is False):
                bad = 'raises an analysis error although the solve converged'
            elif e is not True:
                bad = 'raises an analysis error although err_on_maxiter is off'
        elif 'failed' in st.auto[1]:
            if pos is not True and not (eq is False and neg is False):
                bad = 'reports a failure for a converged solve'
            elif e is not False:
                bad = 'does not raise although err_on_maxiter is on'
        else:
            if not (eq is True or (pos is False and neg is False)):
                bad = 'returns as converged with a non-zero return code'
        rep.ob('ScipyGMRES.solve/verdict', bad is None, (bad or '') + ' (info>0 %s, info<0 %s)' % (pos, neg), where(f), 'verdict')
    rep.need(n >= 3, 'ScipyGMRES: verdict paths not found')
    rep.saw('exits', n)
    one_each(repo, rep, repo.method(cls, 'monitor'), cls, ('attr', T.SELF, 'iter_count'), 'ScipyGMRES.monitor')


class Plain(Client):
    max_states = 60
    generic_loops = True

    def keyfact(self, t):
        return False

    def nothrow(self, I, st, fn, node):
        return True


def one_each(repo, rep, f, cls, cell, key):
    I, out = run(repo, Plain(), f, self_cls=cls)
    rep.fn(f.qualname)
    for st, _ in out.ret:
        v = st.heap.get(cell, cell)
        rep.ob(key + '/counts', all(T.same(a, ('bin', '+', cell, ('const', 1))) for a in T.alts(v)),
               'an iteration changes the count to %s' % T.show(v), where(f), 'limits')


def ksp(repo, rep, iprint):
    cls = repo.cls('PetscKSP')
    f = repo.method(cls, 'solve')
    c = Lib('ksp')
    c.generic_loops = True
    I, out = run(repo, c, f, self_cls=cls, heap={O('iprint'): ('const', iprint)})
    rep.fn(f.qualname)
    rep.need(c.calls, 'KSP tolerances are not set')
    for st, args, kw, loc in c.calls:
        for k, o in (('max_it', 'maxiter'), ('atol', 'atol'), ('rtol', 'rtol')):
            rep.ob('PetscKSP.solve/limit/' + k, kw.get(k) == O(o), '%s of the linear solve is %s' % (k, T.show(kw.get(k, T.NONE))), loc, 'limits')
    n = 0
    cnt = ('const', 0)
    for st, exc in [(s, None) for s, _ in out.ret] + list(out.exc):
        if not st.auto[0]:
            continue
        n += 1
        lim = None
        for t, v in st.facts.items():
            k = classify(t)
            if k and k[0] == 'I':
                lim = (v != k[1])
            elif k and k[0] == 'I?':
                lim = 'unknown comparison ' + T.show(t)
        e = st.facts.get(O('err_on_maxiter'))
        isana = exc is not None and T.contains(exc, lambda x: x[0] in ('class', 'ext') and x[1].endswith('AnalysisError'))
        failed = isana or 'failed' in st.auto[1]
        ok = lim is True if failed else lim is False
        rep.ob('PetscKSP.solve/verdict', ok, '%s although the limit test says %s' % ('fails' if failed else 'succeeds', lim), where(f), 'verdict')
        if failed:
            rep.ob('PetscKSP.solve/error-option', e is isana, 'failure %s although err_on_maxiter is %s' % (
                'raises' if isana else 'only reported', e), where(f), 'verdict')
    rep.need(n >= 2, 'PetscKSP: verdict paths not found')
    rep.saw('exits', n)
    mon = [c2 for c2 in cls.module.classes.values() if '__call__' in c2.methods]
    rep.need(mon, 'KSP monitor not found')
    one_each(repo, rep, repo.method(mon[0], '__call__'), mon[0],
             ('attr', ('attr', T.SELF, '_ksp'), 'iter_count'), 'PetscKSP monitor')


def brent(repo, rep, iprint):
    cls = repo.cls('Brent')
    f = repo.method(cls, 'solve')
    c = Lib('brentq')
    I, out = run(repo, c, f, self_cls=cls, heap={O('iprint'): ('const', iprint)})
    rep.fn(f.qualname)
    rep.need(c.calls, 'brentq is not called')
    for st, args, kw, loc in c.calls:
        src = kw.get('**')
        def val(name):
            if name in kw:
                return kw[name]
            if src is None:
                return None
            got = st.heap.get(('sub', src, ('const', name)))
            if got is not None:
                return got
            if src[0] == 'dict':
                for k, v in src[1]:
                    if k == ('const', name):
                        return v
            return None
        for k, o in (('maxiter', 'maxiter'),):
            rep.ob('Brent.solve/limit/' + k, val(k) == O(o), '%s passed to the root finder is %s' % (k, T.show(val(k) or T.NONE)), loc, 'limits')
    n = 0
    for st, exc in [(s, None) for s, _ in out.ret] + list(out.exc):
        if not st.auto[0]:
            continue
        n += 1
        e = st.facts.get(O('err_on_maxiter'))
        isana = exc is not None and T.contains(exc, lambda x: x[0] in ('class', 'ext') and x[1].endswith('AnalysisError'))
        caught = st.auto[0] == 'threw'
        if exc is not None and not isana:
            continue            # not swallowed
        failed = isana or 'failed' in st.auto[1]
        if caught:
            rep.ob('Brent.solve/verdict/failure', failed, 'a failed root search is neither raised nor reported', where(f), 'verdict')
            if failed:
                rep.ob('Brent.solve/verdict/error-option', e is isana, 'failure %s although err_on_maxiter is %s' % (
                    'raises' if isana else 'only reported', e), where(f), 'verdict')
        else:
            rep.ob('Brent.solve/verdict/success', not failed, 'a successful root search is reported as failure', where(f), 'verdict')
    rep.need(n >= 2, 'Brent: verdict paths not found')


SOLVERS = [
    ('NLGaussSeidel', ('children_solve_nonlinear', 'apply_nonlinear'), ('A', 'R', 'U'), True),
    ('Newton', ('_sys_linearize', 'children_solve_nonlinear', 'apply_nonlinear', 'solve_linear'), ('A', 'R', 'U'), True),
    ('LinearGaussSeidel', ('solve_linear',), ('A', 'R'), True),
    ('BackTracking', ('apply_nonlinear', 'children_solve_nonlinear'), ('A',), True),
]


def check(repo, rep, tier):
    for name, evals, kinds, can_raise in SOLVERS:
        for iprint in (0, 1):
            verdicts(repo, rep, repo.cls(name), iprint, evals, kinds, can_raise)
    for iprint in (0, 1):
        gmres(repo, rep, iprint)
        ksp(repo, rep, iprint)
        brent(repo, rep, iprint)
