"""M01: a system runs on exactly the current values of the sources its inputs are connected to."""
import ast
from sa import terms as T
from sa.events import Trace, traces
from sa.probe import probe
from sa.util import *

EXPLANATION = (
    'Path-sensitive traces of the routines that build and perform data transfers: for one generic connection the index pairs '
    'entered into the transfer of its target (and, for derivatives, of its source) are compared with the offsets of the two '
    'variables; merged slices must cover exactly the pairs they replace; every execution of a subsystem must be preceded by '
    'the transfer to it; every connection is owned by the innermost group containing both ends.')
RULE = 'each path: pairs entered == pairs of the connection, each once, under the right key; transfer to a subsystem precedes its one run'
ASSUMPTIONS = ['one generic connection, variable and subsystem per loop', 'real (not remote) variables; message passing between processes is outside']


def neg(facts, pred):
    return any(x is False and pred(k) for k, x in facts.items())


def fact(facts, pred):
    return next((x for k, x in facts.items() if pred(k)), None)


# ---------------------------------------------------------------- slices
def is_slice_fact(facts, t):
    return fact(facts, lambda k: k[0] == 'call' and k[1] == ('ext', 'isinstance') and len(k[2]) == 2 and T.same(k[2][0], t) and k[2][1] == ('ext', 'slice'))


def equal_fact(facts, a, b):
    return fact(facts, lambda k: k[0] == 'eq' and {k[1], k[2]} == {a, b}) is True


def member(t, at, i):
    """component i of an entry"""
    return t in (('sub', at, T.const(i)), ('idx', at, T.const(i)))


def scatters(repo, rep):
    cls = repo.cls('DataTransfer')
    f = repo.method(cls, '__init__')
    rep.fn(f.qualname, 'to_slice')
    S, G = ('param', 'src_idxs'), ('param', 'tgt_idxs')
    key = 'DataTransfer.__init__'

    def raw(t, p):
        """(a slice form of) one generic entry of the index list p"""
        if t[0] == 'call' and ext_tail(t[1]) == 'to_slice' and t[2]:
            t = t[2][0]
        return t == ('elem', p) or t[0] == 'sub' and t[1] == p and t[2][0] == 'idx'
    n = 0
    for mode in ('fwd', 'rev'):
        c = Trace(calls=('append', 'insert', 'extend', 'pop', 'remove', 'sort', 'reverse'),
                  inline=lambda I, fn, func: func.name != 'to_slice' and (fn[0] == 'attr' and fn[1] == T.SELF or fn[0] in ('func', 'closure')))
        c.havoc_containers = True
        res, out, I = traces(repo, f, cls, client=c, env={'mode': T.const(mode)})
        for ev, facts, v, st in res:
            held = st.heap.get(('attr', T.SELF, 'scatters'))
            rep.ob(key + '/kept', held is not None, 'the transfer does not keep its index pairs', where(f), 'slices')
            if not any(x and k[0] == 'nonempty' for k, x in facts.items()):
                continue
            entries = []
            for e in ev:
                if e[0] == 'set' and e[1][0] == 'sub' and e[1][1] == held:
                    entries.append(('replace', e[1], e[2], e[3]))
                elif e[0] == 'call' and e[2][0] == 'attr' and e[2][1] == held:
                    entries.append((e[1], None, e[3][0] if e[3] else None, e[5]))
            entries = [x for x in entries if x[0] not in ('sort', 'reverse')]
            if len(entries) != 1 or entries[0][0] not in ('append', 'replace'):
                rep.ob('%s/%s/once' % (key, mode), False, 'an index pair is entered %d times' % len([e for e in entries if e[0] == 'append']), where(f), 'slices')
                continue
            kind, cell, val, loc = entries[0]
            n += 1
            if val[0] != 'tuple' or len(val[1]) < 2:
                rep.ob('%s/%s/pair' % (key, mode), False, 'enters %s' % T.show(val), loc, 'slices')
                continue
            a, b = val[1][:2]
            if kind == 'append':
                rep.ob('%s/%s/pair' % (key, mode), raw(a, S) and raw(b, G), 'pairs %s with %s' % (T.show(a), T.show(b)), loc, 'slices')
                continue
            old = cell
            last = T.const(-1)
            for x, p, i, nm in ((a, S, 0, 'sources'), (b, G, 1, 'targets')):
                new = next((y for y in T.subterms(x) if raw(y, p) and y[0] == 'call'), None)
                o = next((y for y in T.subterms(x) if member(y, old, i)), None)
                k2 = '%s/%s/merge/%s' % (key, mode, nm)
                ok = cell[2] == last and new is not None and o is not None and x[0] == 'call' and x[1] == ('ext', 'slice')
                if ok:
                    step_new, step_old = ('attr', new, 'step'), ('attr', o, 'step')
                    ok = len(x[2]) == 3 and x[2][0] == ('attr', o, 'start') and x[2][1] == ('attr', new, 'stop') and x[2][2] in (step_new, step_old)
                    rep.ob(k2 + '/adjacent', equal_fact(facts, ('attr', o, 'stop'), ('attr', new, 'start')), 'slices are joined that need not be adjacent', loc, 'slices')
                    rep.ob(k2 + '/step', equal_fact(facts, step_new, step_old), 'slices of different strides are joined', loc, 'slices')
                    rep.ob(k2 + '/kinds', is_slice_fact(facts, o) is True and is_slice_fact(facts, new) is True, 'an index array is joined as a slice', loc, 'slices')
                rep.ob(k2, ok, 'joins into %s' % T.show(x), loc, 'slices')
    rep.need(n >= 4, 'DataTransfer.__init__: index pairs not found')
    slicing(repo, rep)


def slicing(repo, rep):
    mod = repo.cls('DataTransfer').module
    f = None
    for g in repo.all_functions():
        if g.name == 'to_slice' and g.cls is None:
            f = g
    rep.need(f is not None, 'to_slice not found')
    X = ('param', f.node.args.args[0].arg)
    res, out, I = traces(repo, f, None, client=Trace())
    key = 'to_slice'

    def item(t):
        return t[2] if t[0] == 'sub' and t[1] == X else None

    def simp(t):
        t = simp_all(t)
        return T.subst(t, lambda x: ('sub', X, T.const(-1)) if x[0] == 'sub' and x[1] == X and x[2] == ('bin', '-', ('call', ('ext', 'len'), (X,), (), None), T.const(1)) else x)
    first, last = ('sub', X, T.const(0)), ('sub', X, T.const(-1))
    one = T.const(1)
    gap = ('bin', '-', ('sub', X, T.const(1)), first)

    def size_is(facts, k):
        for t, x in facts.items():
            if t[0] == 'eq' and T.const(k) in t[1:] and any(y[0] in ('call', 'attr') and T.contains(y, lambda z: z == X) for y in t[1:]) and x:
                return True
        return False

    def differences(t):
        """idxs[1:] - idxs[:-1], however spelled"""
        t = simp_all(t)
        if t[0] == 'call' and ext_tail(t[1]) in ('diff', 'ediff1d') and t[2] == (X,):
            return True
        if t[0] == 'bin' and t[1] == '-':
            a, b = item(t[2]), item(t[3])
            return a is not None and b is not None and a == ('slice', one, T.NONE, T.NONE) and b in (
                ('slice', T.NONE, T.const(-1), T.NONE), ('slice', T.const(0), T.const(-1), T.NONE))
        return False

    def same_gap(t):
        t = simp_all(t)
        return T.same(t, gap) or T.same(t, ('sub', ('call', ('ext', 'numpy.diff'), (X,), (), None), T.const(0)))

    def uniform(facts):
        for t, x in facts.items():
            u = t
            while u[0] == 'un' and u[1] == 'not':
                u, x = u[2], not x
            if u[0] != 'call':
                continue
            nm = ext_tail(u[1])
            arg = u[2][0] if u[2] else u[1][1] if u[1][0] == 'attr' else None
            if nm not in ('any', 'all') or arg is None:
                continue
            want = True
            while arg[0] == 'un' and arg[1] in ('not', '~'):
                arg, want = arg[2], not want
            if arg[0] == 'eq' and any(differences(y) for y in arg[1:3]) and any(same_gap(y) for y in arg[1:3]):
                if nm == 'all' and x and want or nm == 'any' and not x and not want:
                    return True
        return False

    def positive(facts):
        for t, x in facts.items():
            if t[0] in ('le', 'lt'):
                a, b = t[1], t[2]
                if x and (t[0] == 'lt' and a == T.const(0) and same_gap(b) or t[0] == 'le' and a == one and same_gap(b)
                          or t[0] == 'lt' and simp_all(a) == first and simp_all(b) == ('sub', X, one)):
                    return True
                if not x and (t[0] == 'le' and same_gap(a) and b == T.const(0) or t[0] == 'lt' and same_gap(a) and b == one):
                    return True
        return False
    n = 0
    for ev, facts, v, st in res:
        if v == X or simp_all(v) == X:
            continue
        n += 1
        ok = v[0] == 'call' and v[1] == ('ext', 'slice') and len(v[2]) in (2, 3)
        a = [simp(x) for x in v[2]] if ok else []
        if ok and size_is(facts, 1):
            ok = a[0] in (first, last) and any(T.same(a[1], ('bin', '+', x, one)) for x in (first, last)) and (len(a) == 2 or a[2] in (one, T.NONE))
        elif ok:
            ok = len(a) == 3 and a[0] == first and same_gap(a[2]) and any(T.same(a[1], ('bin', '+', last, s)) for s in (a[2], gap, one))
            rep.ob(key + '/uniform', uniform(facts), 'indices become a slice although their gaps need not all be equal', where(f), 'slices')
            rep.ob(key + '/ascending', positive(facts), 'indices become a slice although they need not ascend', where(f), 'slices')
        rep.ob(key + '/exact', ok, 'indices become %s' % T.show(v), where(f), 'slices')
    if not n:
        rep.ob(key + '/kept', bool(res), 'nothing is returned', where(f), 'slices')


# ---------------------------------------------------------------- objects
def objects(repo, rep):
    cls = repo.cls('DataTransfer')
    f = repo.method(cls, 'transfer')
    rep.fn(f.qualname)
    src, tgt = ('param', 'srcvec'), ('param', 'tgtvec')
    c = Trace(calls=('_assign_to',))
    res, out, I = traces(repo, f, cls, client=c, env={'mode': T.const('fwd'), 'deriv': T.FALSE})
    key = 'DataTransfer.transfer/objects'
    n = 0
    for ev, facts, v, st in res:
        loop = fact(facts, lambda k: k[0] == 'nonempty' and mentions_attr(k, 'byobj_conns'))
        el = ('elem', T.path('byobj_conns'))
        t, s = ('sub', el, T.const(0)), ('sub', el, T.const(1))
        want_v, want_t = ('sub', src, s), ('sub', tgt, t)
        done = [e for e in ev if e[0] == 'set' and e[1] == want_t and e[2] == want_v]
        refs = [e for e in ev if e[0] == 'call' and e[1] == '_assign_to']
        ref = fact(facts, lambda k: k[0] == 'call' and k[1] == ('ext', 'isinstance'))
        stray = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][1] in (src, tgt) and e not in done]
        rep.ob(key + '/stray', not stray, 'writes %s' % [T.show(e[1]) for e in stray], where(f), 'objects')
        if not loop:
            if loop is None:
                rep.ob(key + '/sent', False, 'objects are not transferred with the values', where(f), 'objects')
            continue
        n += 1
        if refs:
            e = refs[0]
            rep.ob(key + '/file', len(refs) == 1 and e[2][1] == want_t and e[3] == (want_v,) and not done, 'assigns %s to %s' % (
                [T.show(a) for a in e[3]], T.show(e[2][1])), e[5], 'objects')
        else:
            rep.ob(key + '/sent', len(done) == 1 and len([e for e in ev if e[0] == 'set' and e[1] == want_t]) == 1, 'an object is not handed over', where(f), 'objects')
    rep.need(n, 'DataTransfer.transfer: objects are not visited')


# ---------------------------------------------------------------- offsets
def offsets(repo, rep):
    cls = repo.cls('Group')
    f = repo.method(cls, '_get_global_idxs')
    rep.fn(f.qualname)
    U, P, UI, PI = ('param', 'u_sizes'), ('param', 'p_sizes'), ('param', 'u_var_idxs'), ('param', 'p_var_idxs')
    un, pn = ('param', 'uname'), ('param', 'pname')
    iu, ip = ('sub', UI, un), ('sub', PI, pn)
    pacc, uacc = ('sub', ('attr', T.path('params'), '_dat'), pn), ('sub', ('attr', T.path('unknowns'), '_dat'), un)
    pmeta, umeta = ('attr', pacc, 'meta'), ('attr', uacc, 'meta')
    owner_p, owner_u = ('sub', T.path('_owning_ranks'), pn), ('sub', T.path('_owning_ranks'), un)
    full = ('slice', T.NONE, T.NONE, T.NONE)

    def upto(r):
        return ('slice', T.NONE, r, T.NONE)

    def nsum(t):
        """np.sum(x), x.sum() -> ('SUM', x); the first axis may be written out"""
        def g(x):
            a = None
            if x[0] == 'call' and x[1][0] == 'ext' and x[1][1].split('.')[-1] == 'sum' and len(x[2]) == 1 and not x[3]:
                a = x[2][0]
            elif x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'sum' and not x[2] and not x[3]:
                a = x[1][1]
            if a is None:
                return x
            if a[0] == 'sub' and a[2][0] == 'tuple' and len(a[2][1]) == 2 and a[2][1][1] == full:
                a = ('sub', a[1], a[2][1][0])
            if a[0] == 'sub' and a[2][0] == 'slice' and a[2][1] == T.const(0):
                a = ('sub', a[1], ('slice', T.NONE) + a[2][2:])
            if a[0] == 'sub' and a[2][0] == 'tuple':
                a = ('sub', a[1], ('tuple', tuple(('slice', T.NONE) + y[2:] if y[0] == 'slice' and y[1] == T.const(0) else y for y in a[2][1])))
            return ('sub', ('name', 'SUM'), a)
        return T.subst(t, g)

    def S(x):
        return ('sub', ('name', 'SUM'), x)

    def before(A, r, i):
        return ('bin', '+', S(('sub', A, upto(r))), S(('sub', A, ('tuple', (r, upto(i))))))

    def is_arange(t, n_pred):
        return t[0] == 'call' and ext_tail(t[1]) == 'make_idx_array' and len(t[2]) == 2 and t[2][0] == T.const(0) and n_pred(t[2][1])
    key = 'Group._get_global_idxs'
    n = 0
    for mode in ('fwd', 'rev'):
        c = Trace(cells=lambda cell: cell[0] == 'sub')
        res, out, I = traces(repo, f, cls, client=c, env={'mode': T.const(mode)})
        for ev, facts, v, st in res:
            if v[0] != 'tuple' or len(v[1]) != 2:
                rep.ob(key + '/pair', False, 'returns %s' % T.show(v), where(f), 'offsets')
                continue
            a, b = v[1]
            empty = lambda t: is_arange(t, lambda m: m == T.const(0))
            if empty(a) and empty(b):
                far = any(x and k[0] == 'attr' and k[2] == 'remote' for k, x in facts.items()) or \
                    any(x is False and k[0] == 'eq' and T.contains(k, lambda y: y == owner_p) for k, x in facts.items())
                rep.ob('%s/%s/skipped' % (key, mode), far, 'a local variable is left out', where(f), 'offsets')
                continue
            n += 1
            pdist = fact(facts, lambda k: k == ('in', T.const('src_indices'), pmeta))
            udist = fact(facts, lambda k: k == ('in', T.const('src_indices'), umeta))
            rank = ('attr', T.path('comm'), 'rank')
            serial = fact(facts, lambda k: k == ('is', T.path('comm'), T.NONE))
            me = T.const(0) if serial else rank
            chosen = ('sub', pmeta, T.const('src_indices'))
            alln = lambda t: is_arange(t, lambda m: m == ('sub', pmeta, T.const('size')))
            isarg = (lambda t: t == chosen or t[0] == 'call' and ext_tail(t[1]) in ('to_idx_array', 'array', 'asarray') and t[2] and t[2][0] == chosen) if pdist else alln
            # targets: consecutive from the offset of the input
            k2 = '%s/%s' % (key, mode)
            rng = [y for y in T.subterms(b) if y[0] == 'call' and ext_tail(y[1]) == 'make_idx_array']
            okb = False
            for y in rng:
                if not is_arange(y, lambda m: m[0] == 'call' and m[1] == ('ext', 'len') and isarg(m[2][0]) or m[0] == 'attr' and m[2] == 'size' and isarg(m[1])
                                 or not pdist and m == ('sub', pmeta, T.const('size'))):
                    continue
                for r in (me, owner_p):
                    if T.same(nsum(b), ('bin', '+', before(P, r, ip), nsum(y))):
                        okb = okb or r == me or mode == 'rev'
            rep.ob(k2 + '/targets', okb, 'targets are %s' % T.show(b)[:300], where(f), 'offsets')
            if pdist or udist:
                sets = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][1] == a]
                if not any(k[0] == 'nonempty' and x for k, x in facts.items()):
                    continue
                ok = False
                for e in sets:
                    mask = e[1][2]
                    conj = [mask[2][0], mask[2][1]] if mask[0] == 'call' and ext_tail(mask[1]) == 'logical_and' and len(mask[2]) == 2 else \
                        [mask[2], mask[3]] if mask[0] == 'bin' and mask[1] == '&' else []
                    for r in {y for y in T.subterms(mask) if y[0] == 'idx'}:
                        start = S(('sub', U, ('tuple', (upto(r), iu))))
                        end = ('bin', '+', start, ('sub', U, ('tuple', (r, iu))))
                        lo = any(q[0] == 'le' and T.same(nsum(q[1]), start) and isarg(q[2]) for q in conj)
                        hi = any(q[0] == 'lt' and isarg(q[1]) and T.same(nsum(q[2]), end) for q in conj)
                        val = nsum(e[2])
                        got = None
                        for base in T.subterms(e[2]):
                            if base[0] == 'sub' and base[2] == mask and isarg(base[1]):
                                got = base
                        if got is not None and lo and hi:
                            want = ('bin', '-', ('bin', '+', nsum(got), before(U, r, iu)), start)
                            ok = ok or T.same(val, want)
                rep.ob(k2 + '/sources/indexed', ok and len(sets) == 1, 'the chosen entries are taken from %s' % [T.show(e[2])[:200] for e in sets], where(f), 'offsets')
            else:
                ok = False
                for y in T.subterms(a):
                    if not isarg(y):
                        continue
                    for r in (me, owner_u):
                        ok = ok or T.same(nsum(a), ('bin', '+', nsum(y), before(U, r, iu))) and (r == me or mode == 'fwd')
                rep.ob(k2 + '/sources', ok, 'sources are %s' % T.show(a)[:300], where(f), 'offsets')
    rep.need(n >= 6, 'index computation not found')


# ---------------------------------------------------------------- building the transfers
def build(repo, rep):
    cls = repo.cls('Group')
    f = repo.method(cls, '_setup_data_transfer')
    g = repo.method(cls, '_get_global_idxs')
    rep.fn(f.qualname)
    voi = ('param', 'var_of_interest')
    conns = T.path('connections')
    par = ('elem', conns)
    unk = ('sub', ('sub', conns, par), T.const(0))
    here = T.path('pathname')
    mine = ('param', 'my_params')
    key = 'Group._setup_data_transfer'
    rel = ('get', ('attr', ('attr', T.path('_probdata'), 'relevance'), 'relevant'), voi)

    def is_rel(t):
        return mentions_attr(t, 'relevance') or mentions_attr(t, 'relevant')

    # --- numbering of the relevant variables and entries of one connection
    c = Trace(calls=('append', 'extend', 'create_data_xfer', '_get_global_idxs', 'name_relative_to', 'nearest_child'))
    c.havoc_containers, c.unroll = True, 4
    res, out, I = traces(repo, f, cls, client=c)
    n = m = 0
    counters = {}
    for ev, facts, v, st in res:
        for nm in ('_u_size_lists', '_p_size_lists'):
            name = ('sub', ('elem', ('sub', T.path(nm), T.const(0))), T.const(0))
            counters.setdefault(nm, set()).update(e[2] for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == name and e[2][0] == 'mu')
    for ev, facts, v, st in res:
        def size_list(nm):
            return ('sub', T.path(nm), T.const(0))
        tables = {}
        for nm, vec in (('_u_size_lists', 'unknowns'), ('_p_size_lists', 'params')):
            el = ('elem', size_list(nm))
            name = ('sub', el, T.const(0))
            r = fact(facts, lambda k: k[0] == 'in' and is_rel(k[2]) and T.contains(k[1], lambda y: y == name))
            sets = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == name]
            k2 = '%s/%s' % (key, vec)
            if r is None:
                continue
            n += 1
            rep.ob(k2 + '/numbered', bool(sets) == r and len(sets) <= 1, 'a variable is %s although it is %srelevant' % ('numbered' if sets else 'not numbered', '' if r else 'not '), where(f), 'numbering')
            if not r:
                rep.ob(k2 + '/counted', not any(x[0] == 'aug' and x[2] in counters[nm] or x[0] == 'set' and x[1][0] == 'local' and x[1][-1] in {i[2] for i in counters[nm]} and
                                                x[2] not in counters[nm] and T.contains(x[2], lambda y: y in counters[nm]) for x in ev),
                       'an irrelevant variable is counted', where(f), 'numbering')
            for e in sets:
                tables[nm] = e[1][1]
                i = e[2]
                byten = i[0] == 'call' and i[1] == ('ext', 'len') and i[2] == (e[1][1],)
                steps = [x for x in ev if x[0] == 'aug' and (x[2] == i or st.env.get(i[2] if i[0] == 'mu' else None) is not None)]
                nxt = [val for nm2, val in st.env.items() if i[0] == 'mu' and nm2 == i[2]]
                ok = byten or i[0] == 'mu' and any(x[0] == 'aug' and x[1] == '+' and x[2] == i and x[3] == T.const(1) for x in ev) or \
                    any(T.same(x, ('bin', '+', i, T.const(1))) for x in nxt)
                rep.ob(k2 + '/counted', ok, 'numbers a variable %s and does not count on from there' % T.show(i), e[3], 'numbering')
        # --- the connection
        if fact(facts, lambda k: k == ('nonempty', conns)) is not True:
            continue
        own = fact(facts, lambda k: k == ('in', par, mine))
        rels = [(k, x) for k, x in facts.items() if k[0] == 'in' and is_rel(k[2]) and (T.contains(k[1], lambda y: y == par))]
        appends = [e for e in ev if e[0] == 'call' and e[1] == 'append' and e[2][0] == 'attr' and slot(e[2][1])]
        if own is not True or any(x is False for k, x in rels):
            rep.ob(key + '/foreign', not appends, 'an input of another group or an irrelevant one is transferred', where(f), 'entries')
            continue
        m += 1
        u_rel = any(T.contains(k[1], lambda y: y == unk) for k, x in rels)
        p_rel = any(not T.contains(k[1], lambda y: y == unk) for k, x in rels)
        rep.ob(key + '/relevant', u_rel and p_rel, 'the relevance of source and input is not looked at', where(f), 'entries')
        prel = ('call', 'name_relative_to', (here, par))
        calls = {e[1]: e for e in ev if e[0] == 'call'}
        obj = [x for k, x in facts.items() if T.contains(k, lambda y: y == T.const('pass_by_obj'))]
        is_obj = bool(obj) and all(obj)
        got = {}
        for e in appends:
            s = slot(e[2][1])
            got.setdefault(s[0], []).append((s[1], e[3][0], e[5]))
        child = lambda d: [k for k in got if k[0] == 'tuple' and len(k[1]) == 2 and k[1][1] == d]
        for direction, end, d in (('fwd', par, None), ('rev', unk, None)):
            ks = [k for k in got if is_child(k, here, end)]
            k2 = '%s/%s' % (key, direction)
            if is_obj and direction == 'rev':
                rep.ob(k2 + '/object', not ks, 'objects take part in the reverse transfer', where(f), 'entries')
                continue
            if len(ks) != 1:
                rep.ob(k2 + '/entered', False, 'a connection is not entered under the child of its %s' % ('input' if direction == 'fwd' else 'source'), where(f), 'entries')
                continue
            vals = sorted(got[ks[0]], key=lambda x: repr(x[0]))
            pos = [p for p, _, _ in vals]
            loc = vals[0][2]
            pair = [(p, x) for p, x, _ in vals if x[0] == 'tuple']
            okp = len(pair) == 1 and len(pair[0][1][1]) == 2 and rel_name(pair[0][1][1][0], here, par) and prom_name(pair[0][1][1][1], unk)
            rep.ob(k2 + '/names', okp and pair[0][0] == T.const(3 if is_obj else 2), 'records %s at %s' % (
                [T.show(x) for p, x in pair], [T.show(p) for p, x in pair]), loc, 'entries')
            if is_obj:
                rep.ob(k2 + '/object', len(vals) == 1, 'an object is also given vector entries', loc, 'entries')
                continue
            idx = {p[1]: x for p, x, _ in vals if x[0] != 'tuple' and p[0] == 'const'}
            ok = set(idx) == {0, 1} and len(vals) == 3
            if ok:
                r = idx[0][1] if idx[0][0] == 'sub' else None
                ok = r is not None and idx[0] == ('sub', r, T.const(0)) and idx[1] == ('sub', r, T.const(1)) and r[0] == 'call' and ext_tail(r[1]) == '_get_global_idxs'
            rep.ob(k2 + '/indices', ok, 'enters %s' % [(T.show(p), T.show(x)[:60]) for p, x, _ in vals], loc, 'entries')
            if ok:
                names = [a.arg for a in g.node.args.args][1:]
                a = dict(zip(names, r[2]))
                a.update(dict(r[3]))
                rep.ob(k2 + '/indices/of', prom_name(a.get('uname'), unk) and rel_name(a.get('pname'), here, par) and a.get('mode') == T.const(direction),
                       'asks for the indices of %s' % {k: T.show(x)[:80] for k, x in a.items() if k in ('uname', 'pname', 'mode')}, loc, 'entries')
                for kk, nm in (('u_var_idxs', '_u_size_lists'), ('p_var_idxs', '_p_size_lists')):
                    if nm in tables:
                        rep.ob(k2 + '/indices/' + kk, a.get(kk) == tables[nm], 'uses %s' % T.show(a.get(kk)), loc, 'entries')
                for kk, nm, loc_nm in (('u_sizes', '_u_size_lists', '_local_unknown_sizes'), ('p_sizes', '_p_size_lists', '_local_param_sizes')):
                    want = st.heap.get(('sub', T.path(loc_nm), voi))
                    rep.ob(k2 + '/indices/' + kk, a.get(kk) == want and want is not None, 'uses %s' % T.show(a.get(kk) or T.NONE), loc, 'entries')
    rep.need(n and m, 'setup of data transfers not recognised (%d, %d)' % (n, m))
    sizes(repo, rep, f, cls, res, I)
    # --- creation
    k = 0
    for ev, facts, v, st in res:
        for mode in ('fwd', 'rev'):
            made = [(cell, val) for cell, val in st.heap.items() if cell[0] == 'sub' and cell[1] == T.path('_data_xfer') and cell[2][0] == 'tuple'
                    and len(cell[2][1]) == 3 and cell[2][1][1] == T.const(mode)]
            fulls = [(cell, val) for cell, val in made if cell[2][1][0] == T.const('')]
            parts = [(cell, val) for cell, val in made if cell[2][1][0] != T.const('')]
            k2 = '%s/%s' % (key, mode)
            rep.ob(k2 + '/full', len(fulls) == 1, 'the transfer to all subsystems is not created', where(f), 'creation')
            deriv = facts.get(('param', 'alloc_derivs'))
            vecs = [('sub', T.path('dumat'), voi), ('sub', T.path('dpmat'), voi)] if deriv else [T.path('unknowns'), T.path('params')]
            for cell, val in made:
                k += 1
                a = args_of(val)
                rep.ob(k2 + '/key', cell[2][1][2] == voi, 'stored under %s' % T.show(cell[2]), where(f), 'creation')
                rep.ob(k2 + '/vectors', a is not None and list(a[:2]) == vecs and a[6] == T.const(mode), 'created for %s' % ([T.show(x) for x in a] if a else T.show(val)), where(f), 'creation')
            for cell, val in parts:
                a = args_of(val)
                if a is None:
                    continue
                entry = a[2][1] if a[2][0] == 'sub' else None
                ok = all(x == ('sub', entry, T.const(i)) for i, x in enumerate(a[2:6]))
                same = entry is not None and T.contains(cell[2][1][0], lambda y: y == entry[2]) if ok and entry[0] == 'sub' else False
                rep.ob(k2 + '/part', ok and same, 'created from %s' % [T.show(x)[:40] for x in a[2:6]], where(f), 'creation')
                dirs = [x for kf, x in facts.items() if kf[0] == 'eq' and entry is not None and len(entry) > 2 and T.contains(kf, lambda y: y == ('sub', entry[2], T.const(1)))]
                rep.ob(k2 + '/direction', bool(dirs), 'entries of the other direction are used', where(f), 'creation')
            # every entry of this direction goes into the full transfer; a partial one exists unless there is nothing in it
            for cell, val in fulls:
                a = args_of(val)
                if a is None:
                    continue
                i0 = [j for j, e in enumerate(ev) if e[0] == 'set' and e[1] == cell][-1]
                prev = [j for j, e in enumerate(ev[:i0]) if e[0] == 'set' and e[1][0] == 'sub' and e[1][1] == T.path('_data_xfer') and e[1][2][1][0] == T.const('')]
                ext = [e for e in ev[(prev[-1] if prev else 0):i0] if e[0] == 'call' and e[1] == 'extend']
                lists = {e[2][1]: e[3][0] for e in ext}
                if not ext:
                    rep.ob(k2 + '/full/parts', not parts, 'the transfer to all leaves out one subsystem', where(f), 'creation')
                    continue
                ok = [lists.get(x) for x in a[2:6]]
                ent = ok[0][1] if ok[0] is not None and ok[0][0] == 'sub' else None
                good = ent is not None and all(o == ('sub', ent, T.const(i)) for i, o in enumerate(ok)) and len(ext) == 4
                rep.ob(k2 + '/full/parts', good, 'collects %s' % [T.show(x)[:40] if x else None for x in ok], where(f), 'creation')
                empt = [x for kf, x in facts.items() if kf[0] == 'sub' and kf[1] == ent]
                if not parts:
                    have = {kf[2] for kf, x in facts.items() if kf[0] == 'sub' and kf[1] == ent and x is False}
                    rep.ob(k2 + '/part/made', {T.const(2), T.const(3)} <= have or T.const(2) in have and len(have) > 1,
                           'a subsystem with connections gets no transfer', where(f), 'creation')
    rep.need(k, 'creation of transfers not found')


def args_of(val):
    if val[0] == 'call' and ext_tail(val[1]) == 'create_data_xfer':
        names = ('src_vec', 'tgt_vec', 'src_idxs', 'tgt_idxs', 'vec_conns', 'byobj_conns', 'mode', 'sysdata')
        kw = dict(val[3])
        a = list(val[2]) + [kw.get(n, T.NONE) for n in names[len(val[2]):]]
        return a if len(a) == 8 else None
    return None


def slot(t):
    """(key, position) of a list inside the table of entries"""
    if t[0] == 'sub' and t[1][0] == 'call' and ext_tail(t[1][1]) == 'setdefault' and len(t[1][2]) == 2:
        return t[1][2][0], t[2]
    if t[0] == 'sub' and t[1][0] == 'sub':
        return t[1][2], t[2]
    return None


def is_child(key, here, end):
    if key[0] != 'tuple' or len(key[1]) != 2:
        return False
    k = key[1][0]
    return k[0] == 'call' and ext_tail(k[1]) == 'nearest_child' and k[2] == (here, end)


def rel_name(t, here, p):
    return t is not None and t[0] == 'call' and ext_tail(t[1]) == 'name_relative_to' and t[2] == (here, p)


def prom_name(t, u):
    return t is not None and t[0] == 'sub' and mentions_attr(t[1], 'to_prom_name') and t[2] == u


def sizes(repo, rep, f, cls, res, I):
    """the size tables list the numbered variables of every process"""
    voi = ('param', 'var_of_interest')
    key = 'Group._setup_data_transfer'
    n = 0
    for ev, facts, v, st in res:
        proc = [x for k, x in facts.items() if k[0] == 'nonempty' and T.contains(k, lambda y: y[0] == 'attr' and y[2] == 'comm')]
        if not any(proc):
            continue
        for loc_nm, nm in (('_local_unknown_sizes', '_u_size_lists'), ('_local_param_sizes', '_p_size_lists')):
            val = st.heap.get(('sub', T.path(loc_nm), voi))
            if val is None:
                rep.ob('%s/%s' % (key, nm), False, 'the sizes are not kept', where(f), 'sizes')
                continue
            lst = next((y for y in T.subterms(val) if y[0] in ('mu', 'list', 'comp')), None)
            added = [e for e in ev if e[0] == 'call' and e[1] == 'append' and e[2][0] == 'attr' and e[2][1] == lst]
            ok = len(added) == 1 and added[0][3][0][0] == 'comp'
            n += 1
            rep.ob('%s/%s' % (key, nm), ok, 'the sizes of one process are not entered once', where(f), 'sizes')
            if ok:
                comp = added[0][3][0]
                src = comp[3][0]
                good = src[0] == 'sub' and src[1] == T.path(nm) and comp[2] == ('sub', ('elem', src), T.const(1))
                conds = I.compconds.get(comp, [])
                flt = False
                for cs, env in conds:
                    for cnd in cs:
                        if isinstance(cnd, ast.Compare) and len(cnd.ops) == 1 and isinstance(cnd.ops[0], ast.In) and isinstance(cnd.left, ast.Name) \
                                and env.get(cnd.left.id) == ('sub', ('elem', src), T.const(0)):
                            right = cnd.comparators[0]
                            tab = env.get(right.id) if isinstance(right, ast.Name) else None
                            nums = [e[1][1] for e in ev if e[0] == 'set' and e[1][0] == 'sub' and T.contains(e[1][2], lambda y: y == ('elem', ('sub', T.path(nm), T.const(0))))]
                            flt = tab is not None and (not nums or tab in nums)
                rep.ob('%s/%s/filter' % (key, nm), good and flt, 'sizes are taken from %s' % T.show(comp)[:200], where(f), 'sizes')
    rep.need(n, 'size tables not found')


# ---------------------------------------------------------------- names and owners
def owners(repo, rep):
    f = [g for g in repo.all_functions() if g.name == '_assign_parameters']
    rep.need(f, '_assign_parameters not found')
    f = f[0]
    rep.fn(f.qualname, 'get_common_ancestor', 'nearest_child', 'name_relative_to')
    C = ('param', f.node.args.args[0].arg)
    par = ('elem', C)
    unk = ('sub', ('sub', C, par), T.const(0))
    res, out, I = traces(repo, f, None, calls=('get_common_ancestor', 'add', 'append'))
    n = 0
    for ev, facts, v, st in res:
        if not any(x for k, x in facts.items() if k[0] == 'nonempty'):
            continue
        n += 1
        anc = [e for e in ev if e[0] == 'call' and e[1] == 'get_common_ancestor']
        add = [e for e in ev if e[0] == 'call' and e[1] in ('add', 'append')]
        ok = len(anc) == 1 and set(anc[0][3]) == {par, unk} and len(add) == 1 and add[0][3] == (par,) and \
            T.contains(add[0][2], lambda y: y[0] == 'call' and ext_tail(y[1]) == 'get_common_ancestor')
        rep.ob('_assign_parameters/owner', ok, 'an input is not owned by the innermost group around it and its source', where(f), 'owner')
    rep.need(n, '_assign_parameters: loop not found')
    for nm in ('get_common_ancestor', 'nearest_child', 'name_relative_to'):
        g = [x for x in repo.all_functions() if x.name == nm and x.cls is None]
        rep.need(g, nm + ' not found')
        names(repo, rep, nm, g[0])


def names(repo, rep, nm, g):
    a, b = [('param', x.arg) for x in g.node.args.args[:2]]
    if nm == 'get_common_ancestor':
        c = Trace(calls=('append',))
        c.havoc_containers = True
        res, out, I = traces(repo, g, None, client=c)
        eq = None
        for ev, facts, v, st in res:
            app = [e for e in ev if e[0] == 'call' and e[1] == 'append']
            eqs = [(k, x) for k, x in facts.items() if k[0] == 'eq' and T.contains(k, lambda y: y == a) and T.contains(k, lambda y: y == b)]
            for k, x in eqs:
                eq = True
                same_pos = T.subst(k[1], lambda y: ('name', '?') if y in (a, b) else y) == T.subst(k[2], lambda y: ('name', '?') if y in (a, b) else y)
                parts = all(T.contains(z, lambda y: y == T.const('.')) and T.contains(z, lambda y: y[0] == 'attr' and y[2] == 'split') for z in k[1:3])
                rep.ob(nm + '/parts', same_pos and parts, 'compares %s with %s' % (T.show(k[1]), T.show(k[2])), where(g), 'names')
                rep.ob(nm + '/common', bool(app) == x, 'a part is %s although the two %s' % ('kept' if app else 'dropped', 'agree' if x else 'differ'), where(g), 'names')
        rep.ob(nm + '/compares', eq is True, 'the two names are not compared', where(g), 'names')
        # nothing after the first difference: the loop is left there
        brk = any(isinstance(x, ast.Break) for x in ast.walk(g.node)) or any(isinstance(x, ast.Return) and any(isinstance(p, (ast.For, ast.While)) for p in up(x)) for x in ast.walk(g.node)) \
            or any(isinstance(x, ast.Call) and ext_tail_ast(x) == 'takewhile' for x in ast.walk(g.node)) or any(isinstance(x, ast.While) for x in ast.walk(g.node))
        rep.ob(nm + '/prefix', brk, 'parts after the first difference are kept too', where(g), 'names')
        return
    res, out, I = traces(repo, g, None, client=Trace())
    for ev, facts, v, st in res:
        inside = facts.get(a)
        if inside is None:
            inside = next((not x for k, x in facts.items() if k[0] == 'eq' and a in k[1:3] and T.const('') in k[1:3]), None)
        start = ('bin', '+', ('call', ('ext', 'len'), (a,), (), None), T.const(1))
        want = [b if not inside else None]
        rest = None
        cut = [y for y in T.subterms(v) if y[0] == 'sub' and y[1] == b and y[2][0] == 'slice']
        if inside:
            ok = any(T.same(y[2][1], start) and y[2][2] == T.NONE for y in cut)
        else:
            ok = not cut or all(y[2][1] in (T.const(0), T.NONE) and y[2][2] == T.NONE for y in cut)
        rep.ob(nm + '/relative', inside is not None and ok and T.contains(v, lambda y: y == b), 'returns %s' % T.show(v), where(g), 'names')
        if nm == 'nearest_child':
            first = v[0] == 'sub' and v[2] == T.const(0) and v[1][0] == 'call' and v[1][1][0] == 'attr' and v[1][1][2] in ('split', 'partition') and v[1][2] and v[1][2][0] == T.const('.')
            rep.ob(nm + '/first', first, 'returns %s' % T.show(v), where(g), 'names')
        else:
            rep.ob(nm + '/whole', v == b or v in cut, 'returns %s' % T.show(v), where(g), 'names')


def up(n):
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        yield n


def ext_tail_ast(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None


# ---------------------------------------------------------------- runs
RUN = {'children_solve_nonlinear': ('solve_nonlinear', '_sys_solve_nonlinear'), 'apply_nonlinear': ('apply_nonlinear', '_sys_apply_nonlinear')}


def runs(repo, rep):
    base = repo.cls('Group')
    n = 0
    for cls in [base] + list(repo.subclasses(base, True)):
        for meth, todo in RUN.items():
            f = cls.methods.get(meth)
            if f is None:
                continue
            f = repo.method(cls, meth)
            rep.fn(f.qualname)
            key = '%s.%s' % (cls.name, meth)
            c = Trace(calls=('_transfer_data',) + todo, cells=lambda cell: False, iters=True)
            res, out, I = traces(repo, f, cls, client=c)
            for ev, facts, v, st in res:
                loops = [i for i, e in enumerate(ev) if e[0] == 'iter']
                inactive = any(x is False and mentions_attr(k, 'comm') for k, x in facts.items()) and not loops
                gone = facts.get(('nonempty', T.path('_subsystems'))) is False or facts.get(('nonempty', T.path('_local_subsystems'))) is False
                xs = [(i, e) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == '_transfer_data']
                rs = [(i, e) for i, e in enumerate(ev) if e[0] == 'call' and e[1] in todo]
                if not loops:
                    off = gone or any(x is not None and (mentions_attr(k, 'comm') or k[0] == 'call' and ext_tail(k[1]) == 'is_active') for k, x in facts.items())
                    rep.ob(key + '/visits', off and not rs, 'the subsystems are not visited', where(f), 'run')
                    continue
                n += 1
                it = ev[loops[-1]][1]
                over = [y for y in T.subterms(it) if y[0] == 'attr' and y[2] in ('_subsystems', '_local_subsystems')]
                rep.ob(key + '/all', bool(over) and not T.contains(it, lambda y: y[0] == 'slice' or y[0] == 'call' and ext_tail(y[1]) in ('reversed', 'sorted', 'set')),
                       'runs %s' % T.show(it), where(f), 'run')
                skipped = any(x is False and (k[0] == 'call' and k[1][0] == 'attr' and k[1][2] == 'is_active' or meth == 'apply_nonlinear' and k[0] == 'attr' and k[2] == '_run_apply'
                                              or k[0] == 'in' and mentions_attr(k[2], '_local_subsystems'))
                              for k, x in facts.items())
                rep.ob(key + '/once', len(rs) == (0 if skipped else 1), 'a subsystem is run %d times' % len(rs), where(f), 'run')
                for i, e in rs:
                    sub = e[2][1]
                    a = list(e[3])
                    want = [('attr', sub, x) for x in ('params', 'unknowns', 'resids')]
                    rep.ob(key + '/arguments', a[:3] == want, 'is run on %s' % [T.show(x) for x in a], e[5], 'run')
                    wrapped = fact(facts, lambda k: k[0] == 'call' and k[1] == ('ext', 'isinstance') and k[2][0] == sub)
                    rep.ob(key + '/wrapper', wrapped is not True or e[1].startswith('_sys'), 'a component is run without the framework\'s wrapper', e[5], 'run')
                    ok = None
                    for j, x in xs:
                        kw = dict(x[4])
                        fwd = kw.get('mode', x[3][1] if len(x[3]) > 1 else T.const('fwd')) == T.const('fwd')
                        val = kw.get('deriv', x[3][2] if len(x[3]) > 2 else T.FALSE) == T.FALSE
                        none = kw.get('var_of_interest', x[3][3] if len(x[3]) > 3 else T.NONE) == T.NONE
                        who = kw.get('target_sys', x[3][0] if x[3] else T.const(''))
                        full = who == T.const('')
                        if j < i and fwd and val and none and (full or who == ('attr', sub, 'name') or who == ('elem', over[0]) if over else False):
                            fresh = j > loops[-1] or cls.name != 'Group' or meth != 'children_solve_nonlinear'
                            ok = True if fresh else ok or 'stale'
                    rep.ob(key + '/fed', ok is True, 'a subsystem is run %s' % ('on values from before its predecessors ran' if ok else 'without its inputs having been transferred'), e[5], 'run')
    rep.need(n >= 8, 'runs of subsystems not found')
    # out-of-order targets have their residuals evaluated
    f = repo.method(repo.cls('Problem'), '_get_ubc_vars')
    rep.fn(f.qualname)
    c = Trace(calls=('append', 'add'))
    c.havoc_containers = True
    res, out, I = traces(repo, f, f.cls, client=c, assume=None) if False else traces(repo, f, f.cls, client=c)
    m = 0
    for ev, facts, v, st in res:
        if v[0] != 'tuple':
            continue
        add = [e for e in ev if e[0] == 'call' and e[1] == 'add']
        cmp_ = [(k, x) for k, x in facts.items() if k[0] in ('lt', 'le') and all(z[0] in ('sub', 'get') for z in k[1:3])]
        for k, x in cmp_:
            m += 1
            late = x if k[0] == 'lt' else not x
            before, after = (k[1], k[2]) if k[0] == 'lt' else (k[2], k[1])
            src_side = lambda t: T.contains(t, lambda y: y[0] == 'sub' and y[1][0] in ('sub', 'elem', 'idx') and y[2] == T.const(0)) and T.contains(t, lambda y: y == ('sub', ('sub', ('param', 'connections'), ('elem', ('param', 'connections'))), T.const(0)))
            if k[0] == 'lt':
                ok = src_side(after) and not src_side(before)
                rep.ob('Problem._get_ubc_vars/order', ok and bool(add) == x, 'an input fed by a later system is not noted', where(f), 'order')
            else:
                # a <= b false means b < a
                ok = src_side(k[1]) and not src_side(k[2])
                rep.ob('Problem._get_ubc_vars/order', ok and bool(add) == (not x), 'an input fed by a later system is not noted', where(f), 'order')
    rep.need(m, '_get_ubc_vars: order is not compared')


def run_rules(repo, rep):
    scatters(repo, rep)
    objects(repo, rep)
    offsets(repo, rep)
    build(repo, rep)
    owners(repo, rep)
    runs(repo, rep)


def check(repo, rep, tier):
    run_rules(repo, rep)
