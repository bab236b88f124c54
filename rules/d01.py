"""D01: driver-side scaling and unscaling are exact inverses (value-flow + algebraic normal form)."""
from sa import terms as T
from sa.interp import Client
from sa.util import *

EXPLANATION = (
    'Value-flow analysis with an algebraic normal form of every way a design variable, objective or '
    'constraint crosses the driver boundary: values read (get_desvars/get_objectives/get_constraints), '
    'values written (set_desvar, for index absent, zero and non-zero), and bounds stored by add_desvar/'
    'add_constraint of every driver class.  On each path the term reaching the boundary must equal '
    '(model + adder)*scaler, or its inverse, under the branch facts of that path.')
RULE = 'normal form of the boundary term == declared transform under the path facts; indices applied iff declared'
ASSUMPTIONS = ['serial communicator (size 1); MPI broadcast of an owner value is identity',
               'numpy elementwise arithmetic is modelled as field arithmetic']

VOI = {'get_desvars': '_desvars', 'get_objectives': '_objs', 'get_constraints': '_cons'}


def is_key(t, k):
    return t[0] == 'sub' and t[2] == ('const', k)


class Base(Client):
    max_states = 64

    def assume(self, t):
        # serial: comm.size > 1 is false
        if t[0] == 'lt' and t[1] == ('const', 1) and t[2][0] == 'attr' and t[2][2] == 'size':
            return False
        if t[0] == 'eq' and t[1][0] == 'attr' and t[1][2] == 'size' and t[2] == ('const', 1):
            return True
        if t == ('ext', 'openmdao.core.mpi_wrap.MPI') or (t[0] == 'global' and t[2] == 'MPI'):
            return False
        return None


def facts_simp(facts, S, A):
    """substitution of scaler/adder by their neutral value when the path decided so"""
    def norm(t):
        return simp_all(t)
    sub = {}
    for f, v in facts.items():
        f = norm(f)
        if v and f[0] == 'eq' and f[2][0] == 'const':
            if f[1] in S and f[2][1] == 1.0:
                sub[f[1]] = ('const', 1)
            if f[1] in A and f[2][1] == 0.0:
                sub[f[1]] = ('const', 0)
    return sub


def subst_atoms(t, m):
    return T.subst(t, lambda x: m.get(x, x))


class Read(Base):
    def __init__(self, table):
        self.table = table
        self.stores = []

    def on_store(self, I, st, cell, value, node):
        if cell[0] == 'sub' and cell[1][0] in ('call', 'dict') and len(I.frames) == 1:
            self.stores.append((st, cell, value, node, I.loc(node)))
        return st


def check_read(repo, rep, cls, meth, table):
    f = repo.method(cls, meth)
    rep.need(f is not None, 'no method %s' % meth)
    c = Read(table)
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    key = '%s.%s' % (cls.name, meth)
    stores = list(c.stores)
    # values returned through a comprehension
    for st, t in out.ret:
        for x in T.subterms(t):
            if x[0] == 'comp' and x[1] in ('dict',) and x[2][0] == 'tuple':
                stores.append((st, ('sub', t, x[2][1][0]), x[2][1][1], f.node, where(f)))
            elif x[0] == 'comp' and x[2][0] == 'tuple' and len(x[2][1]) == 2:
                stores.append((st, ('sub', t, x[2][1][0]), x[2][1][1], f.node, where(f)))
    rep.need(stores, '%s: no values found in the returned dict' % key)
    for st, cell, value, node, loc in stores:
        for alt in T.alts(value):
            v = simp_all(alt)
            S = {x for x in T.subterms(v) if is_key(x, 'scaler')}
            A = {x for x in T.subterms(v) if is_key(x, 'adder')}
            for ft in st.facts:
                for x in T.subterms(simp_all(ft)):
                    if is_key(x, 'scaler'):
                        S.add(x)
                    if is_key(x, 'adder'):
                        A.add(x)
            rep.saw('read_values')
            neutral = {x: ('const', 1) for x in S}
            neutral.update({x: ('const', 0) for x in A})
            raw = subst_atoms(v, neutral)
            if len(S) > 1 or len(A) > 1:
                rep.ob(key + '/one-meta', False, 'several scalers/adders mixed: %s' % T.show(v), loc, 'scaling')
                continue
            d = ('sub', ('attr', T.SELF, table), cell[2])
            exp_s = ('sub', d, ('const', 'scaler'))
            exp_a = ('sub', d, ('const', 'adder'))
            s_ = next(iter(S)) if S else exp_s
            a_ = next(iter(A)) if A else exp_a
            own = all(x[1] == d for x in S | A)
            rep.ob(key + '/own-meta', own,
                   'scaled with the metadata of another variable: %s' % T.show(v), loc, 'scaling')
            m = facts_simp(st.facts, {s_}, {a_})
            want = ('bin', '*', ('bin', '+', raw, a_), s_)
            ok = T.same(subst_atoms(v, m), subst_atoms(want, m))
            rep.ob(key + '/transform', ok,
                   'value handed out is %s, not (value + adder)*scaler' % T.show(v), loc, 'scaling')
            src = T.contains(raw, lambda x: x[0] in ('attr',) and x[2] in ('unknowns', '_dat', 'flat'))
            rep.ob(key + '/source', src, 'value is not read from the model unknowns: %s' % T.show(raw), loc, 'scaling')
            # indices
            idx = ('sub', d, ('const', 'indices'))
            has = None
            for ft, fv in st.facts.items():
                g = simp_all(ft)
                if g == ('in', ('const', 'indices'), d):
                    has = fv
                elif g[0] == 'is' and g[1] == idx and g[2] == T.NONE:
                    has = not fv
            used = T.contains(raw, lambda x: x[0] == 'sub' and x[2] == idx)
            if has is not None:
                rep.ob(key + '/indices', used == has,
                       'declared indices %s' % ('not applied' if has else 'applied although not declared'), loc, 'indices')
            else:
                rep.ob(key + '/indices', False, 'indices are not consulted', loc, 'indices')


class Write(Base):
    def __init__(self):
        self.stores = []

    def init_auto(self):
        return 0

    def on_store(self, I, st, cell, value, node):
        if T.contains(cell, lambda x: x[0] == 'attr' and x[2] == 'unknowns') and cell[0] == 'sub':
            self.stores.append((st, cell, value, I.loc(node)))
            return st.setauto(min(st.auto + 1, 2))
        return st

    def on_call(self, I, st, fn, args, kwargs, node):
        return None


def check_write(repo, rep, cls):
    f = repo.method(cls, 'set_desvar')
    name = ('param', 'name')
    meta = ('sub', ('attr', T.SELF, '_desvars'), name)
    S, A, IDX = [('sub', meta, ('const', k)) for k in ('scaler', 'adder', 'indices')]
    params = [a.arg for a in f.node.args.args]
    rep.need(len(params) >= 4, 'set_desvar signature')
    nm, val, ind = params[1:4]
    for label, iv in (('whole', T.NONE), ('index0', ('const', 0)), ('index2', ('const', 2))):
        c = Write()
        I, out = run(repo, c, f, self_cls=cls, env={nm: name, val: ('param', 'value'), ind: iv})
        rep.fn(f.qualname, *I.inlined)
        key = '%s.set_desvar/%s' % (cls.name, label)
        rep.need(c.stores, '%s: no write to the unknowns found' % key)
        for st, cell, value, loc in c.stores:
            rep.saw('write_values')
            cell = simp_all(cell)
            for alt in T.alts(value):
                v = simp_all(alt)
                s_, a_ = S, A
                arr = {}
                for ft, fv in st.facts.items():
                    g = simp_all(ft)
                    if g[0] == 'call' and g[1] == ('ext', 'isinstance') and len(g[2]) == 2 \
                            and 'ndarray' in T.show(g[2][1]):
                        arr[g[2][0]] = fv
                if iv != T.NONE:
                    if arr.get(S) is not False and T.contains(v, lambda x: x == ('sub', S, iv)):
                        s_ = ('sub', S, iv)
                    elif arr.get(S) is True:
                        s_ = ('sub', S, iv)
                    if arr.get(A) is not False and T.contains(v, lambda x: x == ('sub', A, iv)):
                        a_ = ('sub', A, iv)
                    elif arr.get(A) is True:
                        a_ = ('sub', A, iv)
                m = facts_simp(st.facts, {S}, {A})
                want = ('bin', '-', ('bin', '/', ('param', 'value'), s_), a_)
                ok = T.same(subst_atoms(v, m), subst_atoms(want, m))
                rep.ob(key + '/transform', ok,
                       'value written is %s, not value/scaler - adder%s' % (
                           T.show(v), '' if iv == T.NONE else ' (element %s)' % T.show(iv)), loc, 'unscaling')
            whole = cell[1][0] == 'attr' and cell[1][2] == 'unknowns'
            if iv != T.NONE:
                ok = not whole and cell[2] == iv
                rep.ob(key + '/target', ok, 'requested index %s, but %s is written' % (T.show(iv), T.show(cell)),
                       loc, 'index')
            else:
                has = None
                for ft, fv in st.facts.items():
                    g = simp_all(ft)
                    if g[0] == 'is' and g[1] == IDX and g[2] == T.NONE:
                        has = not fv
                    elif g == ('in', ('const', 'indices'), meta):
                        has = fv
                    elif g == IDX and fv:
                        has = True
                ok = (has is True and not whole and cell[2] == IDX) or (has is False and whole)
                rep.ob(key + '/target', ok, 'writes %s although indices %s' % (
                    T.show(cell), {True: 'are declared', False: 'are not declared', None: 'were not consulted'}[has]),
                    loc, 'index')
        for st, t in out.ret:
            if st.auto == 0:
                empty = any(v and f_[0] == 'eq' and 'size' in T.show(f_[1]) and f_[2] == ('const', 0)
                            or (v is False and 'size' in T.show(f_)) or
                            (f_[0] in ('lt', 'le') and 'size' in T.show(f_))
                            for f_, v in st.facts.items())
                rep.ob(key + '/always-writes', empty, 'returns without writing the value', where(f), 'unscaling')
            else:
                rep.ob(key + '/writes-once', st.auto == 1, 'the value is written more than once', where(f), 'unscaling')


class Add(Base):
    max_states = 400

    def __init__(self, par):
        self.par = par

    def keyfact(self, t):
        return t[0] in ('is', 'eq') and t[1][0] == 'param' and t[2] == T.NONE or \
            (t[0] == 'in' and t[1] == ('const', 'indices')) or (t[0] == 'param' and t[1] == 'indices')

    def assume(self, t):
        r = Base.assume(self, t)
        if r is not None:
            return r
        p = ('param', 'indices')
        # declared, non-empty sequence: identity and length tests are decided, truthiness is
        # not (a numpy array of one zero is falsy)
        if t == ('is', p, T.NONE):
            return False
        if t == ('call', ('ext', 'len'), (p,), (), None) or t == ('lt', ('const', 0), ('call', ('ext', 'len'), (p,), (), None)):
            return True
        return None


def check_add(repo, rep, cls, meth, table, bounds):
    f = repo.method(cls, meth)
    if f is None:
        return
    c = Add(None)
    params = {a.arg for a in f.node.args.args}
    # the deprecated aliases only replace a missing bound
    env = {k: ('param', k) for k in params if k != 'self'}
    env = {k: v for k, v in env.items()}
    for dep in ('low', 'high'):
        if dep in params:
            env[dep] = T.NONE
    I, out = run(repo, c, f, self_cls=cls, env=env)
    rep.fn(f.qualname, *I.inlined)
    key = '%s.%s' % (cls.name, meth)
    name = ('param', 'name')
    cell = ('sub', ('attr', T.SELF, table), name)
    n = 0
    for st, _ in out.ret:
        d = st.heap.get(cell)
        rep.ob(key + '/registers', d is not None, 'returns without registering the variable', where(f), 'bounds')
        if d is None:
            continue
        for dd in T.alts(d):
            n += 1

            def get(k):
                return st.heap.get(('sub', dd, ('const', k)))
            S, A = get('scaler'), get('adder')
            if S is None or A is None:
                rep.ob(key + '/stores-scaling', False, 'scaler or adder not stored', where(f), 'bounds')
                continue
            for nm, v in (('scaler', S), ('adder', A)):
                for alt in T.alts(v):
                    ok = simp_all(alt) == ('param', nm)
                    rep.ob(key + '/stores-' + nm, ok, 'metadata %r holds %s' % (nm, T.show(alt)), where(f), 'bounds')
            for b in bounds:
                rep.saw('bounds')
                B = get(b)
                if B is None:
                    rep.ob(key + '/' + b, False, 'bound %r not stored' % b, where(f), 'bounds')
                    continue
                for alt in T.alts(B):
                    v = simp_all(alt)
                    s_, a_ = ('param', 'scaler'), ('param', 'adder')
                    raw = subst_atoms(v, {s_: ('const', 1), a_: ('const', 0)})
                    if v == T.NONE or (v == ('param', b) and st.facts.get(('is', v, T.NONE)) is True):
                        ok = cls_opt(meth)
                    else:
                        ok = T.same(v, ('bin', '*', ('bin', '+', raw, a_), s_))
                    rep.ob(key + '/' + b, ok, 'bound %r is given as %s, not (bound + adder)*scaler' % (b, T.show(v)),
                           where(f), 'bounds')
                    foreign = [x for x in T.subterms(v) if x[0] == 'param' and x[1] not in (b, 'scaler', 'adder')]
                    rep.ob(key + '/%s-own' % b, not foreign, 'bound %r is computed from %s' % (
                        b, ', '.join(T.show(x) for x in foreign)), where(f), 'bounds')
            X = get('indices')
            if 'indices' in params:
                ok = X is not None and all(simp_all(a) == ('param', 'indices') or
                                           ('param', 'indices') in list(T.subterms(simp_all(a))) for a in T.alts(X))
                rep.ob(key + '/indices', ok, 'declared indices are dropped on a path deciding on their truth value '
                       '(an array holding only index 0 is falsy)', where(f), 'index')
    rep.need(n, '%s: nothing registered in %s' % (key, table))


def cls_opt(meth):
    return meth == 'add_constraint'


def check(repo, rep, tier):
    base = repo.cls('Driver')
    done = set()
    for cls in [base] + sorted(repo.subclasses(base, strict=True), key=lambda c: c.name):
        for meth, table in sorted(VOI.items()):
            f = repo.method(cls, meth)
            if f and (f.node, '') not in done:
                done.add((f.node, ''))
                check_read(repo, rep, cls, meth, table)
        f = repo.method(cls, 'set_desvar')
        if f.node not in done:
            done.add(f.node)
            check_write(repo, rep, cls)
        for meth, table, bounds in (('add_desvar', '_desvars', ('lower', 'upper')),
                                    ('add_constraint', '_cons', ('lower', 'upper', 'equals')),
                                    ('add_objective', '_objs', ())):
            f = repo.method(cls, meth)
            if f and f.node not in done:
                done.add(f.node)
                check_add(repo, rep, cls, meth, table, bounds)
    rep.need(rep.analysed.get('read_values', 0) >= 3 and rep.analysed.get('write_values', 0) >= 3
             and rep.analysed.get('bounds', 0) >= 5, 'too few instances')
