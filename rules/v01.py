"""V01: unit conversion and residual scaling are applied exactly once, to values and derivatives alike."""
import ast
import itertools
from sa import terms as T
from sa.events import Trace, traces
from sa.probe import probe
from sa.repo import AnalysisBroken
from sa.util import *

EXPLANATION = (
    'A small client program (construct the accessor, read, write) is interpreted over value numbers for every combination '
    'of storage kind, unit conversion, complex allocation and stepping; each returned value is compared as a polynomial with '
    'scale*(x+offset) and each write with x.  The conversion pair, the place it is stored, its use on derivatives, the residual '
    'scaling of values and derivatives and the points of the analysis at which they are applied are compared the same way.')
RULE = 'value read == scale*(stored + offset) once; derivative factor == scale; residual factor == 1/resid_scaler; each exactly once'
ASSUMPTIONS = ['a loop is analysed for one generic variable', 'arithmetic is real arithmetic',
               'a unit conversion in the metadata has a non-zero factor']

ALL = ('slice', T.NONE, T.NONE, T.NONE)
STORE, IMAG = ('param', 'storage'), ('param', 'imag')
SCALE, OFFSET = ('param', 'scale'), ('param', 'offset')


def strip(t, names):
    """remove shape-only views"""
    def f(x):
        while True:
            if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in names and x[1][1][0] != 'ext':
                x = x[1][1]
            elif x[0] == 'call' and x[1][0] == 'ext' and x[1][1].split('.')[-1] in names and x[1][1].startswith('numpy') and x[2]:
                x = x[2][0]
            elif x[0] == 'attr' and x[2] == 'flat' and 'flat' in names:
                x = x[1]
            else:
                return x
    return T.subst(t, f)


def push0(t):
    """an index applies to every operand of an array expression"""
    def f(x):
        if x[0] == 'sub' and x[2] == T.const(0) and x[1][0] == 'bin':
            def on(o):
                return ('sub', o, T.const(0)) if T.contains(o, lambda y: y in (STORE, IMAG)) else o
            return ('bin', x[1][1], f(on(x[1][2])), f(on(x[1][3])))
        if x[0] == 'const' and isinstance(x[1], complex) and x[1].real == 0:
            return ('bin', '*', ('name', 'j'), T.const(x[1].imag))
        if x[0] == 'sub' and x[1] in (STORE, IMAG) and x[2] == ALL:
            return x[1]
        return x
    return T.subst(t, f)


def val_of(t):
    return push0(simp_all(strip(t, {'reshape', 'flat', 'ravel', 'flatten'})))


CONFIG = '''
def client(self, vecwrapper, val, shape, scale, offset, probdata, storage, imag, value, pobj):
    meta = {'val': val, 'shape': %(shape)s, 'size': 1, 'pathname': 'p', %(extra)s}
    self.__init__(vecwrapper, %(slice)s, val, meta, probdata, %(alloc)s)
    %(rebind)s
    %(use)s
'''


def client_paths(repo, cls, cfg, use):
    extra = []
    if cfg['remote']:
        extra.append("'remote': True")
    if cfg['pbo']:
        extra.append("'pass_by_obj': True")
    if cfg['conv']:
        extra.append("'unit_conv': (scale, offset)")
    rebind = 'pass' if cfg['pbo'] else 'self.val = storage\n    self.imag_val = imag' if cfg['alloc'] else 'self.val = storage'
    src = CONFIG % dict(shape='1' if cfg['kind'] == 'scalar' else 'shape', extra=', '.join(extra), alloc=cfg['alloc'], slice='(0, 1)',
                        rebind=rebind, use=use)
    f = probe(cls.module, src, cls)

    have = {'val', 'shape', 'size', 'pathname'} | ({'remote'} if cfg['remote'] else set()) | ({'pass_by_obj'} if cfg['pbo'] else set()) | (
        {'unit_conv'} if cfg['conv'] else set())

    class C(Trace):
        def on_call(self, I, st, fn, args, kwargs, node):
            # the metadata of the client is a dictionary of known content
            if ext_tail(fn) == 'get' and fn[0] == 'attr' and fn[1][0] == 'dict' and args and args[0][0] == 'const' and args[0][1] not in have:
                return [(st, args[1] if len(args) > 1 else T.NONE)]
            return Trace.on_call(self, I, st, fn, args, kwargs, node)

    def assume(t):
        if t == SCALE:
            return True
        if t[0] == 'in' and t[1][0] == 'const' and t[2][0] == 'dict':
            return t[1][1] in have
        if t[0] == 'is' and t[2] == T.NONE and t[1] in (SCALE, OFFSET):
            return False
        if t[0] == 'attr' and t[2] == 'deriv_units':
            return cfg['deriv']
        if t[0] == 'attr' and t[2] == 'in_complex_step':
            return cfg['stepping']
        if t[0] == 'eq' and T.const(1) in t[1:] and ('param', 'shape') in t[1:]:
            return False
        if t[0] == 'eq' and ('param', 'shape') in t[1:]:
            if cfg['kind'] == 'diff':
                return False
            o = [x for x in t[1:3] if x != ('param', 'shape')]
            return True if o and o[0][0] == 'attr' else None
        if t[0] == 'call' and t[1] == ('ext', 'isinstance') and t[2] and t[2][0] == ('param', 'val'):
            return False
        return None

    # storage is an array: `x op= v` on a name bound to it (or a view of it) changes the stored value
    def inplace(cell, old):
        return strip(old, {'reshape', 'ravel', 'flat'}) in (STORE, IMAG) or T.contains(old, lambda x: x == ('param', 'val')) and old[0] != 'bin'
    return traces(repo, f, cls, client=C(assume=assume, inplace=inplace, throws=False))


def held(t):
    """is the term (a view of) what the variable stores"""
    t = strip(t, {'reshape', 'ravel', 'flat'})
    while t[0] == 'sub':
        t = t[1]
    return t in (STORE, IMAG) or t == ('param', 'val')


def accessors(repo, rep):
    cls = repo.cls('Accessor')
    rep.fn(*['Accessor.' + m for m in cls.methods])
    n = 0
    for remote, pbo, conv, deriv, alloc, kind, stepping in itertools.product(
            (False, True), (False, True), (False, True), (False, True), (False, True), ('scalar', 'same', 'diff'), (False, True)):
        if remote and (pbo or conv or deriv or alloc or stepping or kind != 'scalar'):
            continue
        if pbo and (deriv or kind != 'scalar' or alloc or stepping):
            continue
        if stepping and not alloc:
            continue
        cfg = dict(remote=remote, pbo=pbo, conv=conv, deriv=deriv, alloc=alloc, kind=kind, stepping=stepping)
        name = 'remote' if remote else '/'.join([kind if not pbo else 'object', 'units' if conv else 'no units'] + (
            ['derivative vector'] if deriv else []) + (['complex step' if stepping else 'complex storage'] if alloc else []))
        for op in ('get', 'flat', 'set'):
            if op == 'flat' and pbo:
                continue
            key = 'Accessor/%s/%s' % (op, name)
            res, out, I = client_paths(repo, cls, cfg, 'return self.%s()' % op if op != 'set' else 'self.set(value)')
            rep.saw('accessor configurations')
            n += 1
            if remote:
                rep.ob(key, not res and out.exc, 'accessing a remote variable does not raise', cls.module.path and where(repo.func('Accessor.__init__')), 'remote')
                continue
            rep.ob(key + '/answers', bool(res), 'no path completes', '', 'value')
            for ev, facts, v, st in res:
                # only what happens after the values were bound
                cut = max([i for i, e in enumerate(ev) if e[0] == 'set' and e[1] == T.path('set')] + [0])
                post = ev[cut + 1:]
                post = [e for e in post if not (e[0] == 'set' and e[1] in (T.path('val'), T.path('imag_val')) and e[2] in (STORE, IMAG))]
                if op == 'set':
                    written(rep, key, cfg, post, st)
                    continue
                bad = [e for e in post if (e[0] == 'aug' and held(e[2])) or (e[0] == 'set' and (held(e[1]) or e[1][0] == 'attr' and e[1][1] == T.SELF))]
                rep.ob(key + '/read-only', not bad, 'reading changes what is stored (%s)' % ', '.join(T.show(e[2] if e[0] == 'aug' else e[1])[:60] for e in bad),
                       bad[0][-1] if bad else '', 'value')
                want = ('param', 'val') if pbo else STORE
                if alloc and stepping:
                    want = ('bin', '+', want, ('bin', '*', IMAG, T.const(1j)))
                if kind == 'scalar' and not pbo and op == 'get':
                    want = ('sub', want, T.const(0))
                if conv and not deriv:
                    want = ('bin', '*', SCALE, ('bin', '+', want, OFFSET))
                got = unwrap(v)
                ok = T.same(val_of(got), push0(want))
                rep.ob(key + '/value', ok, 'reads %s, expected %s' % (T.show(val_of(got))[:150], T.show(want)[:120]), '', 'value')
                if kind == 'diff' and op == 'get':
                    rs = [x for x in T.subterms(v) if x[0] == 'call' and ext_tail(x[1]) == 'reshape']
                    rep.ob(key + '/shape', len(rs) >= 1 and any(('param', 'shape') in x[2] for x in rs), 'the value is not given its declared shape', '', 'value')
    rep.saw('client programs', n)


def unwrap(v):
    """_ByObjWrapper(x).val is x"""
    def f(x):
        if x[0] == 'attr' and x[2] == 'val' and x[1][0] in ('call', 'new', 'obj') and ('param', 'val') in (x[1][2] if len(x[1]) > 2 and isinstance(
                x[1][2], tuple) else ()):
            return ('param', 'val')
        return x
    return T.subst(v, f)


def written(rep, key, cfg, post, st):
    puts = [e for e in post if e[0] in ('set', 'aug')]
    V = ('param', 'value')
    if cfg['pbo']:
        ok = len(puts) == 1 and puts[0][0] == 'set' and puts[0][1][0] == 'attr' and puts[0][1][2] == 'val' and puts[0][2] == V
        rep.ob(key + '/value', ok, 'writes %s' % '; '.join(T.show(e[1])[:60] if e[0] == 'set' else e[0] for e in puts), '', 'value')
        return
    want = {}
    idx = T.const(0) if cfg['kind'] == 'scalar' else ALL
    want[('sub', STORE, idx)] = 'real' if cfg['stepping'] else 'all'
    if cfg['stepping']:
        want[('sub', IMAG, idx)] = 'imag'
    got = {}
    for e in puts:
        if e[0] == 'set':
            got.setdefault(e[1], []).append(part(e[2], V))
        else:
            got.setdefault(e[2], []).append('update')
    ok = {k: [v] for k, v in want.items()} == got
    rep.ob(key + '/value', ok, 'writes %s' % '; '.join('%s = %s' % (T.show(k), v) for k, v in sorted(got.items(), key=repr)), '', 'value')


def part(t, V):
    t = strip(t, {'flat', 'ravel', 'flatten', 'reshape'})
    if t == V:
        return 'all'
    for nm in ('real', 'imag'):
        if t == ('attr', V, nm) or t[0] == 'call' and ext_tail(t[1]) == nm and V in t[2]:
            return nm
    return T.show(t)


# ---------------------------------------------------------------- the vectors use their accessors
def vectors(repo, rep):
    for base in ('VecWrapper',):
        for cls in repo.subclasses(repo.cls(base)):
            for mn, want, nargs in (('__getitem__', 'get', 0), ('_flat', 'flat', 0), ('__setitem__', 'set', 1)):
                f = repo.method(cls, mn)
                rep.need(f is not None, '%s.%s not found' % (cls.name, mn))
                rep.fn(f.qualname)
                c = Trace(calls=('get', 'flat', 'set'))
                res, out, I = traces(repo, f, cls, client=c)
                ps = [('param', a.arg) for a in f.node.args.args[1:]]
                for ev, facts, v, st in res:
                    cs = [e for e in ev if e[0] == 'call']
                    ok = len(cs) == 1 and cs[0][1] == want and len(cs[0][3]) == nargs and cs[0][2][1] == ('sub', T.path('_dat'), ps[0])
                    if ok and nargs:
                        ok = cs[0][3][0] == ps[1]
                    elif ok:
                        ok = v == ('call', cs[0][2], cs[0][3], (), None)
                    rep.ob('%s.%s' % (cls.name, mn), ok, 'does not hand over to the accessor of that variable (returns %s)' % T.show(v)[:80], where(f), 'value')
    cls = repo.cls('ComplexStepTgtVecWrapper')
    f = repo.method(cls, '__getitem__')
    rep.need(f is not None, 'ComplexStepTgtVecWrapper.__getitem__ not found')
    rep.fn(f.qualname)
    sv = T.path('step_val')
    for has in (True, False):
        def conv(t):
            return (t[0] == 'get' or t[0] == 'sub') and t[2] == T.const('unit_conv')
        seen = []

        def assume(t):
            if t[0] == 'eq' and mentions_attr(t, 'step_var'):
                return True
            if conv(t) or t[0] == 'in' and t[1] == T.const('unit_conv'):
                seen.append(t)
                return has
            if t[0] == 'is' and t[2] == T.NONE and conv(t[1]):
                seen.append(t)
                return not has
            return None
        res, out, I = traces(repo, f, cls, client=Trace(assume=assume))
        rep.need(res, 'ComplexStepTgtVecWrapper.__getitem__: no path')
        for ev, facts, v, st in res:
            def norm(x):
                if x[0] == 'sub' and x[2] in (T.const(0), T.const(1)) and conv(x[1]):
                    return SCALE if x[2] == T.const(0) else OFFSET
                return x
            got = T.subst(val_of(v), norm)
            want = ('bin', '*', SCALE, ('bin', '+', sv, OFFSET)) if has else sv
            rep.ob('ComplexStepTgtVecWrapper.__getitem__/%s' % ('units' if has else 'no units'), T.same(got, want),
                   'reads %s, expected %s' % (T.show(got)[:120], T.show(want)), where(f), 'value')
            bad = [e for e in ev if e[0] in ('aug', 'set')]
            rep.ob('ComplexStepTgtVecWrapper.__getitem__/read-only', not bad, 'reading changes what is stored', where(f), 'value')


# ---------------------------------------------------------------- where the conversion comes from
def conversions(repo, rep):
    f = repo.func('PhysicalUnit.conversion_tuple_to')
    rep.fn(f.qualname)
    other = ('param', f.node.args.args[1].arg)
    n = [0]

    def simp(t):
        return np_simp(t)

    def assume(t):
        return None
    for same in (True, False):
        def assume(t):
            if t[0] == 'eq' and mentions_attr(t, 'powers'):
                return same
            return None
        res, out, I = traces(repo, f, f.cls, client=Trace(assume=assume))
        if not same:
            rep.ob('conversion_tuple_to/incompatible', not res and out.exc, 'units with other dimensions are converted', where(f), 'conversion')
            continue
        rep.ob('conversion_tuple_to/compatible', bool(res), 'compatible units are not converted', where(f), 'conversion')
        for ev, facts, v, st in res:
            ok = v[0] == 'tuple' and len(v[1]) == 2
            if ok:
                S, D = v[1]
                a, b = ('attr', T.SELF, 'factor'), ('attr', other, 'factor')
                c, d = ('attr', T.SELF, 'offset'), ('attr', other, 'offset')
                ok = T.same(S, ('bin', '/', a, b), simp) and T.same(('bin', '*', S, D), ('bin', '-', ('bin', '/', ('bin', '*', c, a), b), d), simp)
            rep.ob('conversion_tuple_to/pair', ok, '(x + offset)*scale is not the conversion: %s' % T.show(v)[:200], where(f), 'conversion')
    g = repo.func('units.get_conversion_tuple')
    rep.fn(g.qualname)
    ps = [('param', a.arg) for a in g.node.args.args]
    res, out, I = traces(repo, g, None, client=Trace(calls=('conversion_tuple_to',)))
    rep.need(res, 'get_conversion_tuple: no path')
    for ev, facts, v, st in res:
        cs = [e for e in ev if e[0] == 'call']
        ok = len(cs) == 1 and T.contains(cs[0][2], lambda x: x == ps[0]) and not T.contains(cs[0][2], lambda x: x == ps[1]) and \
            all(T.contains(a, lambda x: x == ps[1]) and not T.contains(a, lambda x: x == ps[0]) for a in cs[0][3]) and len(cs[0][3]) == 1 and \
            v == ('call', cs[0][2], cs[0][3], (), None)
        rep.ob('get_conversion_tuple', ok, 'does not convert from the source unit to the target unit: %s' % T.show(v)[:160], where(g), 'conversion')

    f = repo.func('Problem._setup_units')
    rep.fn(f.qualname)
    names = [a.arg for a in f.node.args.args[1:4]]
    conn, pd, ud = [('param', x) for x in names]

    def ground(t):
        """target metadata / source metadata of the generic connection"""
        if t[0] == 'sub' and t[1] == pd:
            return 'target' if t[2] == ('elem', conn) else '?'
        if t[0] == 'sub' and t[1] == ud:
            return 'source' if t[2] == ('sub', ('sub', conn, ('elem', conn)), T.const(0)) else '?'
        return None

    for bad_units in (False, True):
        class C(Trace):
            def on_call(self, I, st, fn, args, kwargs, node):
                if ext_tail(fn) == 'get_conversion_tuple' and bad_units:
                    I.excs.append((st, ('raised', ('call', ('ext', 'TypeError'), (T.const('Incompatible units'),), (), None))))
                    return []
                return Trace.on_call(self, I, st, fn, args, kwargs, node)
        c = C(calls=('get_conversion_tuple', 'append', 'extend'), throws=False)
        res, out, I = traces(repo, f, f.cls, client=c)
        rep.saw('paths', len(res))
        conv = 0
        for ev, facts, v, st in res:
            if facts.get(('nonempty', conn)) is False:
                continue
            both = {}
            for k, x in facts.items():
                if k[0] == 'in' and k[1] == T.const('units'):
                    both[ground(k[2])] = x
                elif k[0] == 'is' and k[2] == T.NONE and k[1][0] in ('get', 'sub') and k[1][2] == T.const('units'):
                    both[ground(k[1][1])] = not x
            have = all(both.get(x, True) for x in ('target', 'source'))
            cs = [e for e in ev if e[0] == 'call' and e[1] == 'get_conversion_tuple']
            sets = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == T.const('unit_conv')]
            errs = [e for e in ev if e[0] == 'call' and e[1] in ('append', 'extend') and mentions_attr(e[2], '_setup_errors')]
            if not have:
                rep.ob('Problem._setup_units/no-units', not sets, 'a conversion is recorded for a variable without units', where(f), 'conversion')
                continue
            if bad_units:
                rep.ob('Problem._setup_units/incompatible', len(errs) == 1 and not sets, 'incompatible units are not reported', where(f), 'conversion')
                continue
            conv += 1
            ok = len(cs) == 1 and len(cs[0][3]) == 2 and [ground(a[1]) if a[0] in ('sub', 'get') else None for a in cs[0][3]] == ['source', 'target'] and \
                all(a[2] == T.const('units') for a in cs[0][3])
            rep.ob('Problem._setup_units/units', ok, 'the conversion is not the one from the source unit to the target unit', where(f), 'conversion')
            if not ok:
                continue
            r = ('call', cs[0][2], cs[0][3], (), None)
            S, D = ('sub', r, T.const(0)), ('sub', r, T.const(1))
            if sets:
                ok = len(sets) == 1 and ground(sets[0][1][1]) == 'target' and sets[0][2] in (('tuple', (S, D)), r)
                rep.ob('Problem._setup_units/stored', ok, 'stores %s in %s' % (T.show(sets[0][2])[:100], T.show(sets[0][1])[:80]), where(f), 'conversion')
            else:
                one = [x for k, x in facts.items() if k[0] == 'eq' and S in k[1:] and any(y in k[1:] for y in (T.const(1.0), T.const(1)))]
                zero = [x for k, x in facts.items() if k[0] == 'eq' and D in k[1:] and any(y in k[1:] for y in (T.const(0.0), T.const(0)))]
                rep.ob('Problem._setup_units/skipped', one == [True] and zero == [True] and not errs, 'a conversion that is not the identity is dropped',
                       where(f), 'conversion')
        rep.need(conv or bad_units, '_setup_units: no conversion found')
    # setup computes them for every model
    f = repo.func('Problem.setup')
    rep.fn(f.qualname)
    sites = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '_setup_units']
    rep.need(sites, 'Problem.setup does not reach _setup_units')


# ---------------------------------------------------------------- derivative and residual factors
def factors(repo, rep):
    for cn in ['TgtVecWrapper'] + [c.name for c in repo.subclasses(repo.cls('TgtVecWrapper'), True)]:
        cls = repo.cls(cn)
        f = probe(cls.module, '''
def client(self, rel_inputs):
    self._cache_units()
    self._apply_unit_derivatives(rel_inputs=rel_inputs)
''', cls)
        check_factor(repo, rep, cls, f, 'unit', cn + '._apply_unit_derivatives')
    for cn in ['SrcVecWrapper'] + [c.name for c in repo.subclasses(repo.cls('SrcVecWrapper'), True)]:
        cls = repo.cls(cn)
        for mn in ('_scale_values', '_scale_derivatives'):
            f = probe(cls.module, '''
def client(self):
    self.scale_cache = None
    self.%s()
''' % mn, cls)
            for vt in ('u', 'r', 'du', 'dr'):
                check_factor(repo, rep, cls, f, vt, '%s.%s' % (cn, mn))
            # the cached factors are used as they are
            g = repo.method(cls, mn)
            check_cached(repo, rep, cls, g, T.path('scale_cache'), '%s.%s' % (cn, mn), T.path('_dat'), 'val')
    cls = repo.cls('ComplexStepSrcVecWrapper')
    g = repo.method(cls, '_scale_values')
    rep.need(g is not None, 'ComplexStepSrcVecWrapper._scale_values not found')
    check_cached(repo, rep, cls, g, T.path('vecwrap', 'scale_cache'), 'ComplexStepSrcVecWrapper._scale_values', T.path('vals'), None)


def check_cached(repo, rep, cls, g, cache, key, store, at):
    rep.fn(g.qualname)

    def assume(t):
        if t[0] == 'is' and t[2] == T.NONE and t[1] == cache:
            return False
        return None
    res, out, I = traces(repo, g, cls, client=Trace(assume=assume, inplace=lambda cell, old: True))
    el = ('elem', cache)
    ok1 = False
    for ev, facts, v, st in res:
        augs = updates(ev)
        if facts.get(('nonempty', cache)) is False:
            continue
        ok1 = True
        cell = ('sub', store, ('sub', el, T.const(0)))
        if at:
            cell = ('attr', cell, at)
        ok = len(augs) == 1 and augs[0][0] == cell and T.same(simp_all(augs[0][1]), ('bin', '/', T.const(1.0), ('sub', el, T.const(1))))
        rep.ob(key + '/cached', ok, 'updates %s' % '; '.join('%s by %s' % (T.show(a), T.show(b)) for a, b in augs)[:200], where(g), 'factor')
    rep.ob(key + '/cached-used', ok1, 'the cached factors are never used', where(g), 'factor')


def updates(ev):
    """multiplicative updates (cell, factor)"""
    out = []
    for e in ev:
        if e[0] == 'aug':
            cell = e[2]
            if cell[0] == 'sub' and cell[2] == ALL:
                cell = cell[1]
            out.append((cell, e[3] if e[1] == '*' else ('bin', '/', T.const(1.0), e[3]) if e[1] == '/' else ('name', e[1])))
        elif e[0] == 'set' and e[1][0] == 'sub' and (e[1][2] == ALL or T.contains(e[2], lambda x: x == e[1])):
            cell = e[1][1] if e[1][2] == ALL else e[1]
            out.append((cell, ('bin', '/', e[2], cell)))
    return [(c, f) for c, f in out if c[0] in ('sub', 'attr')]


def check_factor(repo, rep, cls, f, kind, key):
    dat = T.path('_dat')
    meta_of = ('attr', ('sub', dat, ('elem', dat)), 'meta')

    def assume(t):
        if t == T.path('deriv_units') and kind == 'unit':
            return True
        if t[0] == 'eq' and T.path('vectype') in t[1:3]:
            o = [x for x in t[1:3] if x != T.path('vectype')][0]
            return o == T.const(kind)
        if t[0] == 'in' and t[1] == T.path('vectype') and t[2][0] in ('tuple', 'list', 'set'):
            return T.const(kind) in t[2][1]
        if t[0] == 'is' and t[2] == T.NONE and t[1][0] == 'get':
            return None
        return None
    res, out, I = traces(repo, f, cls, client=Trace(assume=assume, inplace=lambda cell, old: True))
    rep.saw('paths', len(res))
    label = {'unit': ''}.get(kind, '/' + kind)
    groups = {}
    for ev, facts, v, st in res:
        if facts.get(('nonempty', dat)) is False:
            continue
        has = None
        skip = restr = None
        empty = False
        for k, x in facts.items():
            if k[0] == 'in' and k[1] in (T.const('unit_conv'), T.const('resid_scaler')):
                has = x
            elif k[0] == 'get' and k[2] in (T.const('unit_conv'), T.const('resid_scaler')):
                has = x
            elif k[0] == 'is' and k[2] == T.NONE and k[1][0] == 'get' and k[1][2] in (T.const('unit_conv'), T.const('resid_scaler')):
                has = not x
            elif k == ('param', 'rel_inputs'):
                restr = x
            elif k[0] == 'in' and k[2] == ('param', 'rel_inputs'):
                skip = not x
            elif k[0] == 'nonempty' and k[1] != dat and x is False:
                empty = True
        groups.setdefault((has, restr, skip), []).append((empty, updates(ev), ev))
    name = 'unit_conv' if kind == 'unit' else 'resid_scaler'
    done = False
    for (has, restr, skip), ps in sorted(groups.items(), key=repr):
        apply = kind in ('unit', 'r', 'dr') and has is not False and not (restr is not False and skip)
        for empty, ups, ev in ps:
            if not apply or empty:
                rep.ob(key + label + '/untouched', not ups, 'a variable without a factor is changed', where(f), 'factor')
                continue
            cell = ('attr', ('sub', dat, ('elem', dat)), 'val')
            ok = len(ups) == 1 and ups[0][0] == cell
            if ok:
                fac = simp_all(ups[0][1])
                base = ('sub', meta_of, T.const(name))
                want = ('sub', base, T.const(0)) if kind == 'unit' else ('bin', '/', T.const(1.0), base)
                ok = T.same(fac, want)
            done = done or ok
            rep.ob(key + label + '/factor', ok, 'updates %s' % '; '.join('%s by %s' % (T.show(a), T.show(b)) for a, b in ups)[:200], where(f), 'factor')
    if kind in ('unit', 'r', 'dr'):
        rep.ob(key + label + '/applied', done, 'the factor is never applied', where(f), 'factor')


# ---------------------------------------------------------------- where the factors are applied
APPLY = ('_apply_unit_derivatives', '_scale_derivatives', '_scale_values')


def points(repo, rep):
    # residuals of a component are scaled once, after they were evaluated
    f = repo.func('Component._sys_apply_nonlinear')
    rep.fn(f.qualname)
    ps = [('param', a.arg) for a in f.node.args.args[1:4]]
    res, out, I = traces(repo, f, f.cls, client=Trace(calls=APPLY + ('apply_nonlinear',)))
    for ev, facts, v, st in res:
        seq = [(e[1], e[2][1] if e[1] != 'apply_nonlinear' else tuple(e[3])) for e in ev if e[0] == 'call']
        rep.ob('Component._sys_apply_nonlinear', seq == [('apply_nonlinear', tuple(ps)), ('_scale_values', ps[2])], 'performs %s' % ', '.join(
            a for a, b in seq), where(f), 'point')
    # groups reach the residuals of their components through it
    n = 0
    for cls in repo.subclasses(repo.cls('Group')):
        f = repo.method(cls, 'apply_nonlinear')
        if f.cls is not cls:
            continue
        rep.fn(f.qualname)
        res, out, I = traces(repo, f, cls, client=Trace(calls=('_sys_apply_nonlinear', 'apply_nonlinear'), cells=lambda cell: False))
        for ev, facts, v, st in res:
            for e in ev:
                if e[0] != 'call' or e[2][0] != 'attr' or e[2][1] == T.SELF:
                    continue
                sub = e[2][1]
                comp = [x for k, x in facts.items() if k[0] == 'call' and k[1] == ('ext', 'isinstance') and k[2][0] == sub and
                        'Component' in ext_or(k[2][1])]
                n += 1
                rep.ob('%s.apply_nonlinear/child' % cls.name, e[1] == '_sys_apply_nonlinear' or comp == [False], 'evaluates the residuals of a component '
                       'without scaling them', e[5], 'point')
    rep.need(n >= 2, 'Group.apply_nonlinear: evaluation of children not found')
    # partial derivatives
    for mode in ('fwd', 'rev'):
        f = repo.func('System._sys_apply_linear')
        rep.fn(f.qualname)
        for user in (True, False):
            def assume(t):
                if t[0] == 'eq' and mentions_attr(t, 'deriv_options'):
                    return user
                if t[0] == 'eq' and T.contains(t, lambda x: x == T.const('user')):
                    return user
                return None
            c = Trace(calls=APPLY + ('apply_linear', '_apply_linear_jac'), assume=assume, cells=lambda cell: False,
                      keep=lambda t: t[0] in ('sub', 'nonempty') or t == ('param', 'rel_inputs'))
            res, out, I = traces(repo, f, f.cls, client=c, env={'mode': T.const(mode)})
            key = 'System._sys_apply_linear/%s/%s' % (mode, 'user' if user else 'approximated')
            n = 0
            for ev, facts, v, st in res:
                seq = [e for e in ev if e[0] == 'call']
                seq = [(e[1], mat(e[2][1]) if e[1] in APPLY else '') for e in seq]
                if not any(a in ('apply_linear', '_apply_linear_jac') for a, b in seq):
                    rep.ob(key + '/idle', not seq, 'scales without applying derivatives: %s' % (seq,), where(f), 'point')
                    continue
                n += 1
                if not user:
                    rep.ob(key, [a for a, b in seq] == ['_apply_linear_jac'], 'performs %s' % (seq,), where(f), 'point')
                    continue
                i = [k for k, (a, b) in enumerate(seq) if a == 'apply_linear']
                pre, post = set(seq[:i[0]]), set(seq[i[0] + 1:])
                ins = {('_apply_unit_derivatives', 'dpmat'), ('_scale_derivatives', 'dumat')}
                outs = {('_scale_derivatives', 'drmat')}
                want = (ins, outs) if mode == 'fwd' else (outs, ins)
                noop = {('_scale_derivatives', 'dumat')}      # unknowns carry no scaling
                rep.ob(key, len(i) == 1 and (pre - noop, post - noop) == (want[0] - noop, want[1] - noop) and len(pre) + len(post) + 1 == len(seq),
                       'performs %s' % (seq,), where(f), 'point')
            rep.need(n, key + ': no path applies derivatives')
    # the component check applies the same
    # nobody else does
    allowed = {'Component._sys_apply_nonlinear', 'Component._sys_solve_nonlinear', 'System._sys_apply_linear', 'Problem.check_partial_derivatives'}
    callers = {}
    for g in repo.all_functions():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
                callers.setdefault(nm, {}).setdefault(g.qualname, (g, n))
    for nm in APPLY:
        for q, (g, n) in sorted(callers.get(nm, {}).items()):
            ok = admitted(q, callers, allowed, set())
            rep.saw('sites')
            rep.ob('%s <- %s' % (nm, q), ok, '%s is applied outside the evaluation of residuals and partial derivatives' % nm, where(g, n), 'point')


def admitted(q, callers, allowed, seen):
    if q in allowed:
        return True
    if q in seen:
        return False
    nm = q.split('.')[-1]
    cs = callers.get(nm, {})
    return bool(cs) and all(admitted(c, callers, allowed, seen | {q}) for c in cs)


def ext_or(t):
    return ' '.join(str(x) for y in T.subterms(t) for x in y if isinstance(x, str))


def mat(t):
    for x in T.subterms(t):
        if x[0] == 'attr' and x[2] in ('dpmat', 'dumat', 'drmat'):
            return x[2]
    return T.show(t)


def tail(t):
    while t[0] == 'sub':
        t = t[1]
    return t[2] if t[0] == 'attr' else T.show(t)


def own(I, fn, func):
    return fn[0] == 'attr' and fn[1] == T.SELF or func.name == 'setup'


# ---------------------------------------------------------------- kinds of vectors
def kinds(repo, rep):
    """each vector is set up as what it is: derivative vectors of inputs hold derivatives, residual vectors residuals"""
    src = repo.func('SrcVecWrapper.setup')
    dflt = {}
    for g in (src, repo.func('TgtVecWrapper.setup')):
        a = g.node.args
        for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
            if isinstance(d, ast.Constant):
                dflt[(g.cls.name, x.arg)] = T.const(d.value)
    n = 0
    places = {T.path('unknowns'): ('u', None), T.path('resids'): ('r', None), T.path('params'): (None, True)}
    for q in ('Group._create_vecs', 'System._create_views'):
        f = repo.func(q)
        rep.fn(f.qualname)
        c = Trace(calls=('setup', 'get_view'))
        res, out, I = traces(repo, f, f.cls, client=c)
        voi = ('param', 'voi')
        mats = {('sub', T.path('dumat'), voi): ('du', None), ('sub', T.path('drmat'), voi): ('dr', None), ('sub', T.path('dpmat'), voi): (None, False)}
        for ev, facts, v, st in res:
            made = {}
            for place, want in list(places.items()) + list(mats.items()):
                if place in st.heap and st.heap[place] != place:
                    made[st.heap[place]] = (place, want)
            for e in ev:
                if e[0] != 'call':
                    continue
                key = '%s/%s' % (q, T.show(made.get(e[2][1], (e[2][1],))[0])[:40])
                if e[1] == 'get_view':
                    r = ('call', e[2], e[3], e[4], None)
                    for place, cell in made.items():
                        if cell[0] in places and place[0] == 'call' and place[1] == e[2] or cell[0] in mats and place[0] == 'call' and place[1] == e[2]:
                            n += 1
                            ok = tail(cell[0]) == tail(e[2][1])
                            rep.ob('%s/%s' % (q, T.show(cell[0])), ok, 'is a view of %s' % T.show(e[2][1]), where(f), 'kind')
                    continue
                hit = made.get(e[2][1])
                if hit is None:
                    continue
                n += 1
                kw = dict(e[4])
                place, (vt, by) = hit
                if vt:
                    got = kw.get('vectype', dflt.get(('SrcVecWrapper', 'vectype')))
                    rep.ob('%s/%s' % (q, T.show(place)), got == T.const(vt), 'is set up as %s' % T.show(got), where(f), 'kind')
                else:
                    got = kw.get('store_byobjs', dflt.get(('TgtVecWrapper', 'store_byobjs')))
                    rep.ob('%s/%s' % (q, T.show(place)), got == T.const(by), 'is set up to hold %s' % ('derivatives' if by else 'values'), where(f), 'kind')
    rep.need(n >= 8, 'vector setup sites not found')
    f = repo.func('SrcVecWrapper.setup')
    rep.fn(f.qualname)
    for cn in ['SrcVecWrapper'] + [c.name for c in repo.subclasses(repo.cls('SrcVecWrapper'), True)]:
        cls = repo.cls(cn)
        g = repo.method(cls, 'setup')
        c = Trace(calls=(), cells=lambda cell: cell == T.path('vectype'), inline=own)
        c.keep = lambda t: False
        res, out, I = traces(repo, g, cls, client=c)
        for ev, facts, v, st in res:
            sets = [e for e in ev if e[0] == 'set']
            rep.ob(cn + '.setup/kind', bool(sets) and all(e[2] == ('param', 'vectype') for e in sets), 'the vector does not know what it holds', where(g), 'kind')
    for cn in ['TgtVecWrapper'] + [c.name for c in repo.subclasses(repo.cls('TgtVecWrapper'), True)]:
        cls = repo.cls(cn)
        g = repo.method(cls, 'setup')
        for by in (True, False):
            c = Trace(calls=('_cache_units',), cells=lambda cell: cell == T.path('deriv_units'), inline=own)
            c.keep = lambda t: False
            res, out, I = traces(repo, g, cls, client=c, env={'store_byobjs': T.const(by)}, heap={T.path('deriv_units'): T.FALSE})
            for ev, facts, v, st in res:
                sets = [e[2] for e in ev if e[0] == 'set']
                last = sets[-1] if sets else T.FALSE
                rep.ob('%s.setup/%s' % (cn, 'values' if by else 'derivatives'), last == T.const(not by), 'converts %s' % (
                    'derivatives as values' if not by else 'values as derivatives'), where(g), 'kind')
                if not by:
                    rep.ob('%s.setup/factors' % cn, [e for e in ev if e[0] == 'call'] != [], 'the derivative factors are never collected', where(g), 'kind')


# ---------------------------------------------------------------- assembled Jacobian
def assembled(repo, rep):
    f = repo.func('Group.assemble_jacobian')
    rep.fn(f.qualname)
    n = 0
    for mode in ('fwd', 'rev'):
        c = Trace(calls=('at',), cells=lambda cell: False, keep=lambda t: t[0] in ('get', 'in', 'eq', 'is', 'sub'))
        res, out, I = traces(repo, f, f.cls, client=c, env={'mode': T.const(mode), 'method': T.const('assemble')})
        for ev, facts, v, st in res:
            for e in ev:
                if e[0] != 'call' or len(e[3]) != 3:
                    continue
                val = e[3][2]

                def norm(x):
                    if x[0] == 'attr' and x[2] == 'T':
                        return x[1]
                    if x[0] in ('get', 'sub') and x[2] in (T.const('unit_conv'), T.const('resid_scaler')):
                        inp = x[2] == T.const('unit_conv')
                        part = T.const(1 if inp else 0)
                        named = any(y[0] == 'sub' and y[1][0] == 'elem' and y[2] == part for y in T.subterms(x[1]))
                        holder = any(y[0] == 'attr' and y[2] == ('params' if inp else 'unknowns') for y in T.subterms(x[1]))
                        return ('name', ('CONV' if inp else 'RS')) if named and holder else x
                    if x[0] == 'sub' and x[1][0] == 'attr' and x[1][2] == '_jacobian_cache' and x[2] == ('elem', x[1]):
                        return ('name', 'J')
                    return x
                val = T.subst(val, norm)
                state = user = conv = rs = None
                for k, x in facts.items():
                    k2 = T.subst(k, norm)
                    if k[0] == 'in' and mentions_attr(k[2], 'states'):
                        state = x
                    elif k[0] == 'eq' and T.const('user') in k[1:3]:
                        user = x
                    elif k2 == ('name', 'CONV') or k2 == ('in', T.const('unit_conv'), k2[-1]):
                        conv = x
                    elif k2 == ('is', ('name', 'CONV'), T.NONE):
                        conv = not x
                    elif k2 == ('name', 'RS'):
                        rs = x
                    elif k2 == ('is', ('name', 'RS'), T.NONE):
                        rs = not x
                key = 'Group.assemble_jacobian/%s' % mode
                want = ('name', 'J')
                if user is None:
                    rep.ob(key + '/kind', False, 'approximated and user-defined derivatives are treated alike', e[5], 'factor')
                    continue
                n += 1
                if user and conv and state is not True:
                    want = ('bin', '*', want, ('sub', ('name', 'CONV'), T.const(0)))
                if user and rs:
                    want = ('bin', '/', want, ('name', 'RS'))
                if user and rs is None or user and state is False and conv is None:
                    rep.ob(key + '/factors', False, 'the %s of the variable is not looked at' % ('scaling' if rs is None else 'units'), e[5], 'factor')
                    continue
                rep.ob(key + '/factors', T.same(simp_all(val), want), 'adds %s for %s' % (T.show(val)[:200], T.show(want)), e[5], 'factor')
    rep.need(n, 'assemble_jacobian: no accumulation found')


def run_rules(repo, rep):
    accessors(repo, rep)
    vectors(repo, rep)
    conversions(repo, rep)
    factors(repo, rep)
    points(repo, rep)
    kinds(repo, rep)
    assembled(repo, rep)


def check(repo, rep, tier):
    run_rules(repo, rep)
