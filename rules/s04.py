"""S04: model code runs in its system's directory and the caller's working directory is restored."""
from sa import terms as T
from sa.interp import Client
from sa.util import *

EXPLANATION = (
    '(1) The directory context manager is interpreted symbolically through nested enter/exit histories of one '
    'instance (up to three deep), with the process working directory as the automaton state: after every balanced '
    'history the directory is the one before it, and inside the context it is the context\'s own.  (2) Every other function that changes the working '
    'directory restores it on all normal and exceptional exits.  (3) Every call of a system\'s execution, residual, '
    'linear-solve or approximation method from outside that system happens inside a `with` of that same system\'s '
    'directory context (helpers inlined into their callers); linearization enters the system\'s own context itself.  '
    '(4) The directory a system is given is its own joined to its parent\'s, handed down to every subsystem.')
RULE = 'cwd(exit) == cwd(entry) on every exit; run-call on X => X._dircontext active'
ASSUMPTIONS = ['os.chdir and os.getcwd are the only accesses to the working directory',
               'a solver is only invoked by its own system, whose context is then active']

RUN = ('solve_nonlinear', '_sys_solve_nonlinear', 'apply_nonlinear', '_sys_apply_nonlinear',
       'children_solve_nonlinear', 'fd_jacobian', 'complex_step_jacobian', 'solve_linear')
LIN = ('linearize', 'jacobian', 'fd_jacobian', 'complex_step_jacobian')


class Cwd(Client):
    """auto = (current directory term, stacks)"""
    max_states = 60

    def init_auto(self):
        return ('cwd0',)

    def inline(self, I, fn, func):
        return True

    def nothrow(self, I, st, fn, node):
        return False

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = fn[1] if fn[0] == 'ext' else None
        if nm == 'os.getcwd':
            return [(st, st.auto)]
        if nm == 'os.chdir':
            I.excs.append((st, ('exc', 'os.chdir')))
            return [(st.setauto(args[0], (I.loc(node), 'chdir')), T.NONE)]
        if fn[0] == 'attr' and fn[2] in ('append', 'pop', 'insert'):
            cell = fn[1]
            v = st.heap.get(cell, cell)
            if v is not None and v[0] == 'list':
                items = v[1]
                if fn[2] == 'append':
                    return [(st.put(cell, ('list', items + (args[0],))), T.NONE)]
                if fn[2] == 'pop' and items:
                    i = args[0][1] if args and args[0][0] == 'const' else -1
                    return [(st.put(cell, ('list', items[:-1] if i in (-1, len(items) - 1) else items[1:])), items[i])]
                return [(st.put(cell, ('top',)), ('fresh', (node.lineno,)))]
        return None

    def on_store(self, I, st, cell, value, node):
        if value == ('deleted',) and cell[0] == 'sub' and cell[2][0] == 'const':
            base = cell[1] if cell[1][0] == 'list' else st.heap.get(cell[1], cell[1])
            v = st.heap.get(base, base)
            if v[0] == 'list' and v[1] and cell[2][1] in (-1, 0):
                return st.put(base, ('list', v[1][:-1] if cell[2][1] == -1 else v[1][1:]))
        return st

    def on_load(self, I, st, cell, node):
        if cell[0] == 'sub' and cell[2] == ('const', -1):
            v = st.heap.get(cell[1], cell[1])
            v = st.heap.get(v, v)
            if v[0] == 'list' and v[1]:
                return v[1][-1]
        return None


def context_manager(repo, rep):
    n = 0
    for cls in repo.all_classes():
        ent, ex = repo.method(cls, '__enter__'), repo.method(cls, '__exit__')
        if ent is None or ex is None or not (chdirs(repo, ent) or chdirs(repo, ex)):
            continue
        n += 1
        init = repo.method(cls, '__init__')
        key = cls.name
        for hist in ('()', '(())', '(()())', '((()))'):
            states = [((), {}, None)]
            c = Cwd()
            heap, cwd = {}, ('cwd0',)
            if init is not None:
                I, out = run(repo, c, init, self_cls=cls)
                rep.fn(init.qualname)
                heap = [dict(st.heap) for st, _ in out.ret][0]
            paths = [(heap, cwd, [])]
            for ch in hist:
                nxt = []
                for heap, cwd, stack in paths:
                    c = Cwd()
                    c.init_auto = lambda cwd=cwd: cwd
                    f = ent if ch == '(' else ex
                    I, out = run(repo, c, f, self_cls=cls, heap=heap)
                    rep.fn(f.qualname, *I.inlined)
                    for st, v in out.ret:
                        if ch == '(':
                            rep.ob(key + '/enter', st.auto == ('attr', T.SELF, 'dpath') or T.contains(st.auto, lambda x: x[0] == 'param'),
                                   'entering leaves the process in %s' % T.show(st.auto), where(f), 'cwd')
                            for e, _ in out.exc:
                                rep.ob(key + '/enter-fails', e.auto == cwd, 'a failing enter changes the directory', where(f), 'cwd')
                            nxt.append((dict(st.heap), st.auto, stack + [cwd]))
                        else:
                            rep.ob('%s/exit%s' % (key, hist), st.auto == stack[-1],
                                   'leaving a context entered as %s does not return to the directory before it' % hist, where(f), 'cwd')
                            rep.ob(key + '/propagates', v in (T.NONE, ('const', False)), 'the context manager swallows exceptions', where(f), 'cwd')
                            nxt.append((dict(st.heap), st.auto, stack[:-1]))
                paths = nxt
                rep.need(paths and len(paths) < 200, 'directory context: no path')
            rep.saw('histories')
    rep.need(n, 'no directory context manager found')


def chdirs(repo, f):
    for nd in ast.walk(f.node):
        if isinstance(nd, ast.Call):
            d = dotted(nd.func)
            if d and d.split('.')[-1] in ('chdir', 'fchdir'):
                return True
    return False


def other_chdir(repo, rep):
    for f in repo.all_functions():
        if not chdirs(repo, f) or f.name in ('__enter__', '__exit__'):
            continue
        c = Cwd()
        c.generic_loops = False
        c.inline = lambda I, fn, func: not (func.node is f.node)
        I, out = run(repo, c, f, self_cls=f.cls)
        rep.fn(f.qualname)
        for st, _ in out.ret:
            rep.ob(f.qualname + '/return', st.auto == ('cwd0',), 'returns in %s' % T.show(st.auto), where(f), 'cwd')
        for st, e in out.exc:
            if e == ('exc', 'os.chdir') and st.auto != ('cwd0',) and st.trail and False:
                continue
            rep.ob(f.qualname + '/raise', st.auto == ('cwd0',) or restoring(st, e), 'raises in %s' % T.show(st.auto), where(f), 'cwd')
        rep.saw('chdir_functions')


def restoring(st, e):
    """the failing call is the restoring chdir itself"""
    return e == ('exc', 'os.chdir')


class Ctx(Client):
    """auto = tuple of receivers whose directory context is active"""
    generic_loops = True
    max_states = 24

    def __init__(self, own, helpers, standalone):
        self.own, self.helpers, self.standalone = own, helpers, standalone
        self.calls = []

    def init_auto(self):
        return ()

    def keyfact(self, t):
        return False

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def inline(self, I, fn, func):
        return (func.name, func.module.name) in self.helpers

    def on_with(self, I, st, term, item):
        t = term
        r = [a[1] for a in T.alts(t) if a[0] == 'attr' and a[2] == '_dircontext']
        if len(r) != len(T.alts(t)):
            return None
        r = T.phi(r)

        def enter(s):
            return s.setauto(s.auto + (r,))

        def exit_(s, kind):
            return s.setauto(s.auto[:-1])
        return {'enter': enter, 'exit': exit_}

    def on_call(self, I, st, fn, args, kwargs, node):
        by = {}
        for a in T.alts(fn):
            if a[0] == 'attr' and a[2] in RUN + LIN:
                by.setdefault(a[2], []).append(a[1])
        for m, rs in by.items():
            self.calls.append((T.phi(rs), m, st.auto, I.loc(node), I.frame.func))
        return None


def is_super(t):
    return t[0] in ('super',) or (t[0] == 'call' and t[1] == ('ext', 'super'))


def same(a, b):
    if a == b or set(T.alts(b)) <= set(T.alts(a)):
        return True
    rooty = lambda t: t[0] == 'attr' and t[2] == 'root' or t == ('param', 'root')
    return rooty(a) and rooty(b)


def refs(f, names):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.ctx, ast.Load):
            return True
    return False


def call_sites(repo, rep):
    sysb, solvb = repo.cls('System'), repo.cls('SolverBase')
    funcs = [f for f in repo.all_functions() if f.module.name.split('.')[1:2] and
             f.module.name.split('.')[1] in ('core', 'solvers', 'drivers', 'components')]
    # private helpers with callers inside the repository are judged at their call sites
    called = {}
    for f in funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
                if d:
                    called.setdefault(d, set()).add(f.qualname)
    todo = [f for f in funcs if refs(f, RUN + LIN)]
    changed = True
    helpers = {}
    while changed:
        changed = False
        for f in todo:
            if f.name.startswith('_') and not f.name.startswith('__') and f.name not in RUN + LIN and not f.name.startswith('_sys_') \
                    and called.get(f.name, set()) - {f.qualname} and (f.name, f.module.name) not in helpers:
                if f.name in ('_objfunc', '_confunc', '_gradfunc', '_eval'):
                    continue
                helpers[(f.name, f.module.name)] = f
                # callers of a helper have to be analysed too
                for g in funcs:
                    if g not in todo and g.qualname in called[f.name] and g.module.name == f.module.name:
                        todo.append(g)
                        changed = True
    seen_helper = set()
    n_ob = 0
    for f in todo:
        if (f.name, f.module.name) in helpers or f.name == 'worker':
            continue
        system = f.cls is not None and sysb in repo.mro(f.cls)
        solver = f.cls is not None and not system and (solvb in repo.mro(f.cls) or f.module.name.startswith('openmdao.solvers'))
        c = Ctx(system, helpers, None)
        I, out = run(repo, c, f, self_cls=f.cls)
        rep.fn(f.qualname, *I.inlined)
        for recv, m, active, loc, fr in c.calls:
            if is_super(recv) or recv[0] in ('class', 'ext', 'localclass'):
                continue
            lin_entry = f.name == '_sys_linearize'
            if m in LIN and m not in RUN and not lin_entry:
                continue
            if recv == T.SELF or recv[0] == 'self':
                if not system:
                    continue
                if not lin_entry:
                    continue
            if solver and (recv == ('param', 'system') or recv[0] == 'attr' and recv[2] in ('system', 'sys') and recv[1][0] == 'self'):
                continue
            rep.ob('%s/%s' % (f.qualname, m), any(same(x, recv) for x in active),
                   '%s.%s runs outside the directory context of %s' % (T.show(recv)[:80], m, T.show(recv)[:80]), loc, 'context')
            n_ob += 1
    rep.saw('run_calls', n_ob)
    rep.need(n_ob >= 12, 'only %d run calls found' % n_ob)


def directories(repo, rep):
    f = repo.method(repo.cls('System'), '_setup_dir')
    rep.need(f is not None, 'System._setup_dir not found')

    par = ('param', f.node.args.args[1].arg)
    absd = ('attr', ('attr', T.SELF, '_sysdata'), 'absdir')
    dctx = ('attr', T.SELF, '_dircontext')
    ev = []

    class C(Client):
        max_states = 200

        def nothrow(self, I, st, fn, node):
            return True

        def keyfact(self, t):
            return t[0] == 'call' and ext_tail(t[1]) == 'isabs' or 'directory' in str(t)

        def on_store(self, I, st, cell, value, node):
            if cell in (absd, dctx):
                ev.append((cell, value, st, I.loc(node)))
            return st
    c = C()
    I, out = run(repo, c, f, self_cls=repo.cls('System'))
    rep.fn(f.qualname, *I.inlined)
    for cell, v, st, loc in ev:
        isabs = [b for k, b in st.facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isabs']
        for a in T.alts(v):
            if cell == dctx:
                cur = st.heap.get(absd)
                rep.ob('_setup_dir/context', a[0] == 'call' and a[1][0] == 'class' and a[2] and cur is not None and
                       set(T.alts(a[2][0])) <= set(T.alts(cur)) and cur != par,
                       'the context is %s, not one for the system\'s directory' % T.show(a), loc, 'directory')
                continue
            join = a[0] == 'call' and ext_tail(a[1]) == 'join' and len(a[2]) == 2 and a[2][0] == par
            if isabs and isabs[0] is True:
                rep.ob('_setup_dir/absolute', not join and a != par, 'an absolute directory becomes %s' % T.show(a), loc, 'directory')
            elif isabs:
                rep.ob('_setup_dir/relative', join, 'a relative directory becomes %s' % T.show(a), loc, 'directory')
            else:
                rep.ob('_setup_dir/inherited', a == par or join, 'without an own directory the system gets %s' % T.show(a), loc, 'directory')
    for st, _ in out.ret:
        rep.ob('_setup_dir/absdir', st.heap.get(absd) is not None, 'the absolute directory is not set on some path', where(f), 'directory')
    rep.ob('_setup_dir/own', any(e[0] == dctx for e in ev), 'no directory context is created', where(f), 'directory')
    # handed down
    n = 0
    sysb = repo.cls('System')
    for f in repo.all_functions():
        if f.name != '_setup_communicators' or f.cls is None or sysb not in repo.mro(f.cls):
            continue
        params = [a.arg for a in f.node.args.args]

        class D(Client):
            generic_loops = True
            max_states = 12

            def __init__(self):
                self.got = []
                self.sets = []

            def nothrow(self, I, st, fn, node):
                return True

            def keyfact(self, t):
                return False

            def inline(self, I, fn, func):
                return False

            def on_call(self, I, st, fn, args, kwargs, node):
                if fn[0] == 'attr' and fn[2] == '_setup_communicators':
                    kw = dict(kwargs)
                    v = args[1] if len(args) > 1 else kw.get('parent_dir')
                    up = not (fn[1][0] == 'elem' or T.contains(fn[1], lambda x: x[0] == 'elem'))
                    self.got.append((up, v, I.loc(node)))
                if fn == ('attr', T.SELF, '_setup_dir'):
                    self.got.append((True, args[0] if args else None, I.loc(node)))
                return None
        c = D()
        I, out = run(repo, c, f, self_cls=f.cls)
        rep.fn(f.qualname)
        for up, v, loc in c.got:
            n += 1
            want = ('param', params[2]) if up else absd
            rep.ob('%s/%s' % (f.qualname, 'own' if up else 'children'), v == want,
                   'passes %s as the parent directory, expected %s' % (T.show(v or T.NONE), T.show(want)), loc, 'directory')
    rep.need(n >= 4, 'directory hand-down not found')
    rep.saw('directory_handovers', n)


def check(repo, rep, tier):
    context_manager(repo, rep)
    other_chdir(repo, rep)
    call_sites(repo, rep)
    directories(repo, rep)
