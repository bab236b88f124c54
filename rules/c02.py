"""C02: every input takes its value from the one source its connections lead to."""
import ast

from sa import terms as T
from sa.events import Trace, traces
from sa.probe import probe
from sa.slices import aliases, alternatives, nonempties, outer_loops, pn, reach, tr, unit
from sa.table import decide, words
from sa.util import *

EXPLANATION = (
    'Dataflow of connections from their declaration to the map used at run time: every declared connection (and every pair '
    'implied by a shared promoted name) becomes one edge with its own indices, the walk from each output hands every input below '
    'it that output with the indices composed along the edge (decided case by case over which of the two index sets exist), the '
    'walk from each remaining input gives all inputs joined to it the same source or one shared group, targets with two sources are '
    'complaints, and sizes, values and promoted names are copied from the right variable.')
RULE = 'edge(src, tgt, idxs) for every connection; idxs(t) = compose(idxs(s), edge); every joined input: same source or same group'
ASSUMPTIONS = ['one generic connection, edge and variable per loop', 'a depth-first walk visits every variable below its start once']


def compose_ok(v, S, E, facts):
    """is v the composition of the source's indices S with the edge's indices E, given what the path knows?"""
    def none(t):
        x = facts.get(('is', t, T.NONE))
        if x is None:
            x = facts.get(('is', T.NONE, t))
        if t == T.NONE:
            x = True
        return x
    ns, ne = none(S), none(E)

    def indexed(t):
        if t[0] == 'sub' and t[2] in (E,) or t[0] == 'call' and ext_tail(t[1]) == 'take':
            a = t[1] if t[0] == 'sub' else (t[2][0] if len(t[2]) > 1 else t[1][1])
            b = t[2] if t[0] == 'sub' else t[2][-1]
            while a[0] == 'call' and ext_tail(a[1]) in ('array', 'asarray') and a[2]:
                a = a[2][0]
            while b[0] == 'call' and ext_tail(b[1]) in ('array', 'asarray') and b[2]:
                b = b[2][0]
            return a == S and b == E
        return False
    if ne is True:
        return v == S or v == T.NONE and ns is True or v == E and ns is True
    if ns is True:
        return v == E
    if ne is False and ns is False:
        return indexed(v)
    return None


def show(t):
    return T.show(t)[:120]


def empty(t):
    return t[0] in ('list', 'tuple') and t[1] == () or t == T.const(()) or t[0] == 'call' and t[1] == ('ext', 'list') and not t[2]



def additions(ev, facts, key, item):
    """events that put `item` (a test) into the list kept under `key`: (those that keep what is there, those that lose it)"""
    keep, lose = [], []
    new = any(k[0] == 'in' and k[1] == key and x is False for k, x in facts.items())
    fresh = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == key and empty(e[2])]
    for e in ev:
        if e[0] == 'call' and e[1] == 'append' and len(e[3]) == 1 and item(e[3][0]):
            c = e[2][1]
            if c[0] == 'call' and ext_tail(c[1]) == 'setdefault' and c[2][0] == key:
                (keep if len(c[2]) > 1 and empty(c[2][1]) else lose).append((e, e[3][0]))
            elif c[0] == 'sub' and c[2] == key or any(c == y[2] for y in fresh):
                (keep if not fresh or new else lose).append((e, e[3][0]))
        elif e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == key and e[2][0] == 'list' and len(e[2][1]) == 1 and item(e[2][1][0]):
            (keep if new else lose).append((e, e[2][1][0]))
    return keep, lose


def connections(repo, rep):
    cls = repo.cls('Problem')
    f = repo.method(cls, '_setup_connections')
    rep.fn(f.qualname)
    a = pn(f)
    UD = ('param', a[1])
    w = where(f)

    head, last = phases(repo, f)
    # ---- edges of the graph
    adders = ('add_edge', 'add_edges_from', 'add_nodes_from', 'add_node')
    n = m = nsrc = 0
    for g, loop in outer_loops(repo, head, lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in adders):
        rep.fn(g.qualname)
        res, out, I = tr(repo, unit(g, *(aliases(g, loop) + [loop])), g.cls, calls=adders + ('add',), cells=lambda c: c[0] == 'sub')
        for ev, facts, v, st in res:
            ne = nonempties(facts)
            edges = [e for e in ev if e[0] == 'call' and e[1] in ('add_edge', 'add_edges_from')]
            nodes = [e for e in ev if e[0] == 'call' and e[1] in ('add_node', 'add_nodes_from')]
            # explicit connections: one target, several (source, indices)
            declared = [C for C, x in ne.items() if x and C[0] in ('param', 'call') and ('sub', C, ('elem', C)) in ne]
            member = [(k, x if k[2][:1] != ('attr',) or k[2][2] != 'to_abs_uname' else not x) for k, x in facts.items() if k[0] == 'in' and k[1][0] == 'elem' and k[1][1] in ne]
            lists = [k[1][1] for k, x in member] or [e[3][0][1] for e in nodes if e[3] and e[3][0][0] == 'sub'] or [e[3][0][1][1] for e in nodes if e[3] and e[3][0][0] == 'elem' and e[3][0][1][0] == 'sub']
            if not lists:
                for C in declared:
                    tgt = ('elem', C)
                    if ne[('sub', C, tgt)] is not True:
                        continue
                    pair = ('elem', ('sub', C, tgt))
                    src = ('sub', pair, T.const(0))
                    n += 1
                    rep.ob('edge/all', len(edges) == 1, 'a connection is entered %d times' % len(edges), w, 'edges')
                    for e in edges:
                        s, t = pairs_of(e)
                        rep.ob('edge/ends', s == src and t == tgt, 'an edge does not run from the source of a connection to its target: %s -> %s' % (s and show(s), t and show(t)), e[5], 'edges')
                        idx = dict(e[4]).get('idxs')
                        rep.ob('edge/indices', idx == ('sub', pair, T.const(1)), 'an edge does not carry the source indices of its connection: %s' % (idx and show(idx)), e[5], 'edges')
                    isout = facts.get(('in', src, UD))
                    if isout is not None:
                        nsrc += 1
                        adds = [e for e in ev if e[0] == 'call' and e[1] == 'add' and e[3] == (src,)]
                        rep.ob('walk/sources', bool(adds) == isout, 'a connected %s is %s the sources the walk starts from' % ('output' if isout else 'input', 'among' if adds else 'missing from'), w, 'walk')
                continue
            P = lists[0]
            if not ne.get(P):
                continue
            plist = ('sub', P, ('elem', P))
            m += 1
            x = member[0][1] if member else None
            one = any(y is False for c, y in ne.items() if mentions(c, lambda z: z == plist))
            rep.ob('promoted/group', x is not None and (bool(edges) == x or x and not edges and one), 'inputs promoted to one name are %s although %s feeds them' % ('joined' if edges else 'not joined', 'an output of that name' if not x else 'nothing'), w, 'edges')
            for e in edges:
                s, t = pairs_of(e)
                rest = ('sub', plist, ('slice', T.const(1), T.NONE, T.NONE))
                rep.ob('promoted/ends', s == ('sub', plist, T.const(0)) and t == ('elem', rest), 'inputs promoted to one name are not joined first to each other one: %s -> %s' % (s and show(s), t and show(t)), e[5], 'edges')
                rep.ob('promoted/indices', dict(e[4]).get('idxs', 0) == T.NONE, 'inputs joined by promotion share all entries', e[5], 'edges')
            rep.ob('promoted/nodes', any(e[3] and (e[3][0] == plist or e[3][0] == ('elem', plist)) for e in nodes) or ne.get(plist) is False, 'an input without connections is not entered', w, 'edges')
    rep.need(n and m, '_setup_connections: edges not found')
    if not nsrc:
        # the sources may be collected in one go
        comps = [c for g in reach(repo, head).values() for y in ast.walk(g.node) if isinstance(y, (ast.SetComp, ast.ListComp, ast.GeneratorExp)) for z in y.generators for c in z.ifs
                 if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In)]
        rep.ob('walk/sources', bool(comps), 'the outputs that are connected are not collected', w, 'walk')

    # ---- implicit connections
    def uname(g, x):
        named = {n.targets[0].id for n in ast.walk(g.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute) and n.value.attr == 'to_abs_uname'}
        return isinstance(x, ast.Attribute) and x.attr == 'to_abs_uname' or isinstance(x, ast.Name) and x.id in named
    n = 0
    cands = {}
    for g in reach(repo, head).values():
        for h, loop in outer_loops(repo, g, lambda x: isinstance(x, ast.Compare) and any(uname(g, y) for y in x.comparators), deep=False):
            cands[id(loop)] = (h, loop)
    for g, loop in cands.values():
        rep.fn(g.qualname)
        res, out, I = tr(repo, unit(g, *(aliases(g, loop) + [loop])), g.cls, calls=('append', 'add'), cells=lambda c: c[0] == 'sub')
        for ev, facts, v, st in res:
            for k, x in facts.items():
                if k[0] != 'in' or k[2][0] != 'attr' or k[2][2] != 'to_abs_uname':
                    continue
                prom = k[1]
                P = prom[1] if prom[0] == 'elem' else None
                if P is None or facts.get(('nonempty', P)) is not True:
                    continue
                plist = ('sub', P, prom)
                keep, lose = additions(ev, facts, ('elem', plist), lambda z: z[0] == 'tuple')
                anyadd = [e for e in ev if e[0] == 'call' and e[1] == 'append'] + [e for e in ev if e[0] == 'set' and e[2][0] == 'list' and e[2][1]]
                n += 1
                alone = [e for e in ev if e[0] == 'call' and e[1] == 'add' and e[3] == (prom,)]
                rep.ob('implicit/others', bool(alone) == (not x), 'a promoted input is %s the ones no output feeds' % ('among' if alone else 'missing from'), w, 'implicit')
                if not x:
                    rep.ob('implicit/only', not anyadd, 'an input is connected to an output it shares no name with', w, 'implicit')
                elif facts.get(('nonempty', plist)) is not False:
                    rep.ob('implicit/all', len(keep) == 1, 'an input promoted to the name of an output is connected to it %d times' % len(keep), w, 'implicit')
                    rep.ob('implicit/kept', not lose, 'an implicit connection replaces the explicit ones', w, 'implicit')
                for e, val in keep + lose:
                    rep.ob('implicit/source', val == ('tuple', (('sub', k[2], prom), T.NONE)), 'an implicit connection is to %s' % show(val), e[-1] if e[0] == 'call' else e[3], 'implicit')
    rep.need(n, '_setup_connections: implicit connections not found')

    final(repo, rep, last, cls, w)
    loops(repo, rep, f, cls)


def is_dfs(t):
    return t[0] == 'call' and ext_tail(t[1]) == 'dfs_edges'


def has_dfs(n):
    return any(isinstance(x, ast.Call) and (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', None)) == 'dfs_edges' for x in ast.walk(n))


def phases(repo, f):
    """the routine before its first and after its last statement that walks the graph"""
    def walks_(st):
        if has_dfs(st):
            return True
        g = probe(f.module, 'def x(self):\n    pass', f.cls)
        g.node.body = [st]
        return any(has_dfs(h.node) for h in reach(repo, g).values())
    body = f.node.body
    at = [k for k, st in enumerate(body) if walks_(st)]
    if not at:
        return f, f
    args = ast.unparse(f.node.args)
    first = probe(f.module, 'def %s(%s):\n    pass' % (f.name, args), f.cls)
    first.node.body = body[:at[0]]
    last = unit(f, *body[at[-1] + 1:])
    return first, last


def loops(repo, rep, f, cls):
    """the outermost loops that walk the graph, each as a routine of its own"""
    ndown = nup = ndang = 0
    units = []
    for g in reach(repo, f).values():
        def outer(n, inside):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.For) and has_dfs(ch):
                    units.append((g, ch))
                else:
                    outer(ch, inside)
        outer(g.node, False)
    for g, n in units:
        rep.fn(g.qualname)
        u = unit(g, n)
        res, out, I = tr(repo, u, g.cls, calls=('append', 'extend', 'add', 'update', 'dfs_edges'), cells=lambda c: c[0] == 'sub')
        d, p, q = walks(rep, g, n, res)
        ndown += d
        nup += p
        ndang += q
    rep.need(ndown, '_setup_connections: no walk from an output found')
    rep.ob('joined/found', nup > 0, 'inputs joined to a connected input are not given its source', where(f), 'joined')
    rep.ob('dangling/found', ndang > 0, 'free inputs are not grouped', where(f), 'dangling')


def pairs_of(e):
    """(from, to) of the edges an event adds"""
    if e[1] == 'add_edge':
        return e[3][0], e[3][1]
    x = e[3][0] if e[3] else None
    if x is not None and x[0] == 'comp' and x[2][0] == 'tuple' and len(x[2][1]) == 2 and not x[4]:
        return x[2][1]
    return None, None


def entry_of(val):
    """(source, indices) of a one-element list"""
    if val[0] == 'list' and len(val[1]) == 1 and val[1][0][0] == 'tuple' and len(val[1][0][1]) == 2:
        return val[1][0][1]
    return None


def walks(rep, g, n, res):
    w = where(g, n)
    down = up = dang = 0
    for ev, facts, v, st in res:
        dfs = [D for D, x in nonempties(facts).items() if is_dfs(D) and x]
        for D in dfs:
            if len(D[2]) < 2:
                continue
            G, start = D[2][:2]
            edge = ('elem', D)
            t, s = ('sub', edge, T.const(1)), ('sub', edge, T.const(0))
            E = ('sub', ('sub', ('sub', G, s), t), T.const('idxs'))
            got, handed = [], []
            for e in ev:
                if e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == t:
                    en = entry_of(e[2])
                    if en is not None:
                        got.append((en, e[1][1], True, e[3]))
                    else:
                        handed.append((e[1][1], e[2], e[3]))
                elif e[0] == 'call' and e[1] == 'append' and e[3] and e[3][0][0] == 'tuple' and len(e[3][0][1]) == 2:
                    c = e[2][1]
                    if c[0] == 'call' and ext_tail(c[1]) == 'setdefault' and c[2][0] == t:
                        got.append((e[3][0][1], c[1][1], None, e[5]))
                    elif c[0] == 'sub' and c[2] == t:
                        got.append((e[3][0][1], c[1], False, e[5]))
            if D in dfs:
                for box, val, loc in handed:
                    rep.ob('walk/indices', compose_ok(val, ('sub', box, s), E, facts) is True, 'the source indices of an input are not those of the input above it taken at the indices of the connection: %s' % show(val), loc, 'indices')
            isdown = bool(got) or any(e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == start and e[2] == T.NONE for e in ev)
            if D in dfs and isdown:
                down += 1
                rep.ob('walk/all', len(got) == 1, 'an input below an output is given it %d times' % len(got), w, 'walk')
                rep.ob('walk/handed', len(handed) == 1, 'the indices of an input are not kept for the inputs below it', w, 'indices')
                for (src, idx), box, fresh, loc in got:
                    rep.ob('walk/source', src == start, 'an input is given %s instead of the output it is below' % show(src), loc, 'walk')
                    if handed:
                        S = ('sub', handed[0][0], s)
                        rep.ob('walk/own indices', idx in (handed[0][1], ('sub', handed[0][0], t)) or compose_ok(idx, S, E, facts) is True, 'an input is given other indices than those handed to it: %s' % show(idx), loc, 'indices')
                    known = [x for k, x in facts.items() if k[0] == 'in' and k[1] == t and k[2] == box]
                    if fresh is not None:
                        rep.ob('walk/several', bool(known) and known[0] != fresh, 'a second source of an input replaces the first' if fresh else 'the first source of an input is added to no list', loc, 'walk')
        # inputs not below an output
        for k, x in facts.items():
            if k[0] == 'in' and k[1][0] == 'elem' and k[1][1][0] == 'mu' and k[2][0] in ('param', 'attr'):
                box, n_, I_ = k[2], k[1], k[1][1]
                sets = [e for e in ev if e[0] == 'set' and e[1] == ('sub', box, n_)]
                up += 1
                rep.ob('joined/all', bool(sets) == (not x), 'an input joined to a connected one is not given its source' if not x else 'the source of a connected input is replaced', w, 'joined')
                for e in sets:
                    en = entry_of(e[2])
                    ok = en is not None and en[0][0] == 'sub' and en[0][2] == T.const(0) and en[0][1][0] == 'sub' and en[0][1][1][0] == 'sub' and en[0][1][1][1] == box
                    rep.ob('joined/source', ok, 'an input joined to a connected one is given %s' % show(e[2]), e[3], 'joined')
                    if not ok:
                        continue
                    F = en[0][1][1][2]
                    part = facts.get(('is', ('sub', I_, F), T.NONE))
                    S = ('sub', en[0][1], T.const(1)) if part is True else T.NONE
                    rep.ob('joined/known', part is not None, 'whether the connected input takes all entries is not asked', e[3], 'joined')
                    rep.ob('joined/indices', compose_ok(en[1], S, ('sub', I_, n_), facts) is True, 'an input joined to a connected one takes entries %s of its source' % show(en[1]), e[3], 'joined')
                    rep.ob('joined/fed', F[0] == 'sub' and F[1][0] == 'comp' and F[1][4] or facts.get(('in', F, box)) is True, 'an input is given the source of one that has none', e[3], 'joined')
        dn = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][1] == ('attr', T.SELF, '_dangling')]
        ins = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][1] == ('attr', T.SELF, '_input_inputs')]
        if dn or ins:
            dang += 1
            free = [x for k, x in facts.items() if k[0] == 'in' and k[1][0] == 'elem' and k[1][1][0] == 'param' and k[2][0] == 'param']
            rep.ob('dangling/only', free == [False], 'a connected input is taken for a free one', w, 'dangling')
            below = lambda x: mentions(x, lambda z: z[0] == 'sub' and z[1][0] == 'elem' and is_dfs(z[1][1]) and z[2] == T.const(1) or z[0] == 'comp' and mentions(z, is_dfs))
            grow = [e for e in ev if e[0] == 'call' and e[1] in ('append', 'extend', 'add', 'update') and any(below(x) for x in e[3])]
            grow += [e for e in ev if e[0] == 'set' and below(e[2])] + [k for k in facts if below(k) and k[0] == 'nonempty']
            rep.ob('dangling/group', bool(grow) or any(x is False and is_dfs(D) for D, x in nonempties(facts).items()), 'the inputs joined to a free one are not grouped with it', w, 'dangling')
            old = [e for e in ev if e[0] == 'call' and e[1] in ('update', 'union') and any(mentions(x, lambda z: z == ('attr', T.SELF, '_dangling')) for x in e[3])]
            rep.ob('dangling/merge', bool(old) or any(x is False and not is_dfs(D) for D, x in nonempties(facts).items()), 'a group of free inputs that shares one with another group is not merged with it', w, 'dangling')
            for e in dn:
                rep.ob('dangling/whole', e[1][2][0] == 'sub' and e[1][2][2] == ('elem', e[2]), 'an input of a group of free inputs is not entered with that group: %s' % show(e[1][2]), e[3], 'dangling')
                rep.ob('dangling/key', e[1][2][0] == 'sub' and e[1][2][1][0] in ('param', 'attr') and e[1][2][2][0] == 'elem', 'a group of free inputs is stored under %s' % show(e[1][2]), e[3], 'dangling')
    return down, up, dang


def final(repo, rep, f, cls, w):
    """the map returned: one source per target"""
    res, out, I = tr(repo, f, cls, calls=('append',), cells=lambda c: c[0] == 'sub')
    n = 0
    for ev, facts, v, st in res:
        sets = [e for e in ev if e[0] == 'set' and e[1][1] == v]
        told = [e for e in ev if e[0] == 'call' and mentions_attr(e[2], '_setup_errors')]
        for k, x in facts.items():
            if k[0] == 'is' and T.NONE in k[1:]:
                srcs = k[1] if k[2] == T.NONE else k[2]
                if srcs[0] != 'sub' or srcs[2] != ('elem', srcs[1]):
                    continue
                if facts.get(('nonempty', srcs[1])) is not True:
                    continue
                mine = [e for e in sets if e[1][2] == srcs[2]]
                n += 1
                rep.ob('final/all', bool(mine) == (not x), 'a connected input is left out of the result' if not x else 'an output is entered as an input', w, 'result')
                if not x:
                    two = [y for c, y in facts.items() if c == ('lt', T.const(1), ('call', ('ext', 'len'), (srcs,), (), None)) or c[0] == 'lt' and c[1] == T.const(1) and c[2][0] == 'call' and c[2][1] == ('ext', 'len') and c[2][2] == (srcs,)]
                    rep.ob('final/several', bool(two) and bool(told) == two[0], 'an input connected to several outputs is not complained about', w, 'result')
                for e in mine:
                    rep.ob('final/value', e[2] == ('sub', srcs, T.const(0)), 'an input is given %s instead of its source and indices' % show(e[2]), e[3], 'result')
    rep.need(n, '_setup_connections: result not found')


# ---------------------------------------------------------------- declarations
def declared(repo, rep):
    cls = repo.cls('Group')
    f = repo.method(cls, 'connect')
    rep.fn(f.qualname)
    a = [('param', x) for x in pn(f)]
    res, out, I = tr(repo, f, cls, calls=('append',), keep=lambda t: t[0] == 'nonempty' and t[1] in (a[1], ('tuple', (a[1],))) or t[0] == 'call' and t[1] == ('ext', 'isinstance') and t[2][0] == a[1])
    n = 0
    for ev, facts, v, st in res:
        ins = [e for e in ev if e[1] == 'append' and mentions(e[2], lambda z: z == ('attr', T.SELF, '_src'))]
        isstr = [x for k, x in facts.items() if k[0] == 'call' and k[2] and k[2][0] == a[1]]
        if facts.get(('nonempty', a[1])) is False:
            continue
        n += 1
        rep.ob('connect/all', len(ins) == 1, 'a declared connection is stored %d times' % len(ins), where(f), 'declaration')
        for e in ins:
            c = e[2][1]
            key = a[1] if isstr == [True] else ('elem', a[1])
            ok = c[0] == 'call' and ext_tail(c[1]) == 'setdefault' and c[2][0] == key or c[0] == 'sub' and c[2] == key
            rep.ob('connect/target', ok, 'a connection is stored under %s' % show(c), e[5], 'declaration')
            rep.ob('connect/source', e[3] == (('tuple', (a[0], a[2])),), 'a connection is stored as %s' % show(e[3][0]), e[5], 'declaration')
    rep.need(n, 'connect was not understood')

    f = repo.method(cls, '_get_explicit_connections')
    rep.fn(f.qualname)
    c = Trace(calls=('append', 'update'), cells=lambda c: c[0] == 'sub', throws=True)
    c.havoc_containers = True
    res, out, I = traces(repo, f, cls, client=c)
    SRC = ('attr', T.SELF, '_src')
    tgt = ('elem', SRC)
    pair = ('elem', ('sub', SRC, tgt))
    S = ('sub', pair, T.const(0))
    forms = {'output': 0, 'inputs': 0}
    n = 0
    def maps(t, nm):
        return t[0] == 'attr' and t[2] == nm
    for ev, facts, v, st in res:
        ne = nonempties(facts)
        adds = [e for e in ev if e[0] == 'call' and e[1] == 'append' and e[3] and e[3][0][0] == 'tuple' and len(e[3][0][1]) == 2]
        for e in adds:
            sp, idx = e[3][0][1]
            n += 1
            rep.ob('explicit/indices', idx == ('sub', pair, T.const(1)), 'a connection does not keep its source indices', e[5], 'declaration')
            for x in alternatives(sp):
                if x[0] == 'sub' and maps(x[1], 'to_abs_uname') and x[2] == S:
                    forms['output'] += 1
                elif x[0] == 'elem' and x[1][0] == 'sub' and maps(x[1][1], 'to_abs_pnames') and x[1][2] == S:
                    forms['inputs'] += 1
                else:
                    rep.ob('explicit/source', False, 'the source of a connection becomes %s' % show(x), e[5], 'declaration')
            c = e[2][1]
            key = c[2][0] if c[0] == 'call' and ext_tail(c[1]) == 'setdefault' else c[2] if c[0] == 'sub' else T.NONE
            rep.ob('explicit/target', key[0] == 'elem' and key[1][0] == 'sub' and maps(key[1][1], 'to_abs_pnames') and key[1][2] == tgt, 'the target of a connection becomes %s' % show(key), e[5], 'declaration')
        full = ne.get(SRC) and ne.get(('sub', SRC, tgt))
        if full and all(x for k, x in ne.items() if mentions_attr(k, 'to_abs_pnames')):
            rep.ob('explicit/all', len(adds) == 1, 'a declared connection is entered %d times' % len(adds), where(f), 'declaration')
        subs = [k for k in ne if k[0] == 'call' and ext_tail(k[1]) in ('subgroups', 'subsystems')]
        for k in subs:
            ups = [e for e in ev if e[0] == 'call' and e[1] == 'update' and any(mentions(x, lambda z: z[0] == 'call' and ext_tail(z[1]) == '_get_explicit_connections' and z[1][1] == ('elem', k)) for x in e[3])]
            ups += [e for e in ev if mentions(e[2], lambda z: z[0] == 'call' and ext_tail(z[1]) == '_get_explicit_connections')]
            rep.ob('explicit/children', bool(ups) == ne[k], 'the connections declared in a subgroup are left out', where(f), 'declaration')
        rep.ob('explicit/subgroups', bool(subs), 'the connections declared in subgroups are left out', where(f), 'declaration')
    rep.need(n, '_get_explicit_connections was not understood')
    rep.ob('explicit/output sources', forms['output'] > 0, 'an output is no longer found as a source', where(f), 'declaration')
    rep.ob('explicit/input sources', forms['inputs'] > 0, 'an input is no longer found as a source', where(f), 'declaration')


def naming(repo, rep):
    """promoted names"""
    cls = repo.cls('Group')
    f = repo.method(cls, '_promoted_name')
    rep.fn(f.qualname)
    a = [('param', x) for x in pn(f)]
    res, out, I = tr(repo, f, cls, calls=('_promoted',))
    for ev, facts, v, st in res:
        prom = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == '_promoted']
        named = facts.get(('attr', a[1], 'name'))
        full = v[0] == 'call' and v[1] == ('attr', ('const', '.'), 'join') and v[2] and v[2][0][0] in ('tuple', 'list') and v[2][0][1] == (('attr', a[1], 'name'), a[0]) or v == joinf(a)
        want = 'name' if prom == [True] or named is False else 'full'
        rep.ob('_promoted_name', (v == a[0]) if want == 'name' else full, 'the name of a variable that is %s is %s' % ('promoted' if prom == [True] else 'not promoted', show(v)), where(f), 'names')
    rep.need(res, '_promoted_name was not understood')

    f = repo.method(cls, '_promoted')
    rep.fn(f.qualname)
    NAME = ('param', pn(f)[0])
    res, out, I = tr(repo, f, cls)

    def classify(t, x):
        while t[0] == 'un' and t[1] == 'not':
            t, x = t[2], not x
        m = lambda z: z[0] == 'call' and ext_tail(z[1]) in ('match', 'fullmatch')
        if t[0] == 'is' and T.NONE in t[1:] and any(m(y) for y in t[1:]):
            return [('matches', not x)]
        if m(t):
            return [('matches', x)]
        if t[0] == 'eq' and NAME in t[1:] and any(mentions(y, m) for y in t[1:]):
            return [('whole', x)]
        if t[0] == 'in' and t[1] == NAME and t[2][0] == 'attr':
            if t[2][2] == 'to_abs_pnames':
                return [('input', x)]
            if t[2][2] == 'to_abs_uname':
                return [('output', x)]
        if t[0] == 'nonempty':
            return [('patterns', x)]
        return None
    fm = any(isinstance(n, ast.Attribute) and n.attr == 'fullmatch' for n in ast.walk(f.node))

    def value(p):
        v = p[2]
        if v[0] == 'const':
            return bool(v[1])
        return v
    for p, asg, want, got in decide([r for r in res], ['patterns', 'matches', 'whole', 'input', 'output'], classify,
                                    lambda d: d['patterns'] and d['matches'] and (d['whole'] or fm) and (d['input'] or d['output']), value,
                                    lambda d: d['matches'] or not d['whole']):
        if isinstance(got, bool):
            rep.ob('_promoted/table', False, 'a variable is %s although: %s' % ('promoted' if got else 'not promoted', words(asg)), where(f), 'names')
    rep.ob('_promoted/table', True)

    f = repo.method(cls, '_setup_variables')
    rep.fn(f.qualname)
    n = 0
    for which, (d_, prommap) in {0: ('_params_dict', 'to_prom_pname'), 1: ('_unknowns_dict', 'to_prom_uname')}.items():
        for n_ in [x for x in ast.walk(f.node) if isinstance(x, ast.For) and not any(isinstance(y, ast.For) and y is not x for y in ast.walk(x))]:
            pass
    res, out, I = tr(repo, f, cls, calls=('_promoted_name', 'append', '_check_promotes'), cells=lambda c: c[0] == 'sub')
    for ev, facts, v, st in res:
        for e in ev:
            if e[0] == 'call' and e[1] == '_promoted_name':
                n += 1
                x = e[3][0]
                ok = x[0] == 'sub' and x[1][0] == 'attr' and x[1][2] in ('to_prom_pname', 'to_prom_uname', 'to_prom_name') and x[2][0] == 'elem'
                sub = e[3][1] if len(e[3]) > 1 else T.NONE
                ok = ok and mentions(x[1], lambda z: z == sub) and mentions(x[2], lambda z: z == sub)
                rep.ob('variables/name', ok, 'a variable is named in its group after %s' % show(x), e[5], 'names')
        full = [k for k, x in nonempties(facts).items() if x and k[0] == 'sub' and mentions(k, lambda z: z[0] == 'call' and ext_tail(z[1]) == '_setup_variables')]
        for D in full:
            el = ('elem', D)
            proms = [('call', e[2], e[3], e[4], None) for e in ev if e[0] == 'call' and e[1] == '_promoted_name' and mentions(e[3][0], lambda z: z == el)]
            if len(proms) != 1:
                rep.ob('variables/named', False, 'a variable of a subsystem gets no name in its group', where(f), 'names')
                continue
            p = proms[0]
            isp = D[2] == T.const(0)
            rep.ob('variables/kept', any(e[0] == 'set' and e[1][2] == el and e[2] == ('sub', D, el) for e in ev), 'the metadata of a variable is not handed to its group', where(f), 'names')
            rep.ob('variables/to promoted', any(e[0] == 'set' and e[1][2] == el and e[2] == p for e in ev), 'the promoted name of a variable is not kept', where(f), 'names')
            if isp:
                keep, lose = additions(ev, facts, p, lambda z: z == el)
                ok = len(keep) == 1 and not lose
            else:
                mine = [e for e in ev if e[0] == 'set' and e[1][2] == p and e[2] == el]
                ok = bool(mine)
                rep.ob('variables/one output', not mine or any(k[0] == 'in' and k[1] == p and x is False for k, x in facts.items()), 'a second output of one name replaces the first', where(f), 'names')
            rep.ob('variables/from promoted', ok, 'a variable is not found under its promoted name', where(f), 'names')
    rep.need(n, 'Group._setup_variables was not understood')


def joinf(a):
    return ('bin', '+', ('bin', '+', ('attr', a[1], 'name'), ('const', '.')), a[0])


# ---------------------------------------------------------------- sizes and access
def plain(x):
    while x[0] == 'call' and ext_tail(x[1]) in ('array', 'asarray') and x[2]:
        x = x[2][0]
    return x


def sizes(repo, rep):
    cls = repo.cls('Problem')
    f = repo.method(cls, 'setup')
    rep.fn(f.qualname)

    def stores(n):
        return {'src_indices', 'shape'} <= {x.slice.value for x in ast.walk(n) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Constant)}
    units = []
    for g in reach(repo, f).values():
        units += [(g, n) for n in ast.walk(g.node) if isinstance(n, ast.For) and stores(n) and any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(n))]
    done = 0
    for g, n in units:
        u = unit(g, n)
        res, out, I = tr(repo, u, g.cls, cells=lambda c: c[0] == 'sub' and c[2] in (T.const('shape'), T.const('size'), T.const('val'), T.const('src_indices')))
        w = where(g, n)
        for ev, facts, v, st in res:
            ne = [k for k, x in nonempties(facts).items() if x]
            if not ne:
                continue
            C = ne[0]
            tgt = ('elem', C)
            pair = ('sub', C, tgt)
            idx, src = ('sub', pair, T.const(1)), ('sub', pair, T.const(0))
            sets = {}
            for e in ev:
                if e[0] == 'set' and e[1][1][0] == 'sub' and e[1][1][2] == tgt:
                    sets.setdefault(e[1][2][1], []).append(e)
            pbo = unsized = None
            for k, x in facts.items():
                while k[0] == 'un' and k[1] == 'not':
                    k, x = k[2], not x
                if k[0] == 'in' and k[1] == T.const('pass_by_obj') and not x:
                    pbo = False
                elif k[0] in ('sub', 'get') and k[2] == T.const('pass_by_obj'):
                    pbo = x
                elif k[0] == 'call' and ext_tail(k[1]) == 'get' and k[2][0] == T.const('pass_by_obj'):
                    pbo = x
                elif k[0] == 'eq' and mentions(k, lambda z: z == T.const('shape')) and any(y in (('tuple', ()), T.const(())) for y in k[1:]):
                    unsized = x
            has = facts.get(('is', idx, T.NONE), facts.get(('is', T.NONE, idx)))
            done += 1
            if pbo is None:
                rep.ob('sizes/object', False, 'whether an input is passed as an object is not asked', w, 'sizes')
                continue
            if pbo is True:
                rep.ob('sizes/object', not sets, 'an input passed as an object is given a size', w, 'sizes')
                continue
            if unsized is True:
                for k in ('shape', 'size', 'val'):
                    es = sets.get(k, [])
                    rep.ob('sizes/' + k, len(es) == 1, 'an input without size is not given the %s of its source' % k, w, 'sizes')
                    for e in es:
                        val = e[2]
                        sm = lambda z: z[0] == 'sub' and z[1][0] == 'sub' and z[1][2] == src and z[2] == T.const(k)
                        if has is True:
                            ok = sm(val)
                        else:
                            cnt = lambda z: z[0] == 'call' and z[1] == ('ext', 'len') and z[2] == (idx,) or z[0] == 'attr' and z[2] == 'size' and mentions(z[1], lambda y: y == idx)
                            if k == 'size':
                                ok = cnt(val)
                            elif k == 'shape':
                                ok = val[0] == 'tuple' and len(val[1]) == 1 and cnt(val[1][0]) or val[0] == 'attr' and val[2] == 'shape' and mentions(val[1], lambda y: y == idx)
                            else:
                                flat = lambda z: z[0] == 'call' and ext_tail(z[1]) in ('ravel', 'flatten', 'reshape') and mentions(z, sm) or z[0] == 'attr' and z[2] == 'flat' and mentions(z, sm)
                                ok = val[0] == 'sub' and flat(val[1]) and plain(val[2]) == idx or val[0] == 'call' and ext_tail(val[1]) == 'take' and mentions(val, sm) and plain(val[2][-1]) == idx and 'axis' not in dict(val[3])
                        rep.ob('sizes/%s/value' % k, ok, 'an input without size %s is given %s %s' % ('fed by some entries of its source' if has is False else 'fed by its whole source', k, show(val)), e[3], 'sizes')
            elif unsized is False:
                rep.ob('sizes/own', not any(k in sets for k in ('shape', 'size', 'val')), 'an input that has a size is given another one', w, 'sizes')
            es = sets.get('src_indices', [])
            if has is not None:
                rep.ob('sizes/indices', len(es) == (0 if has else 1), 'the source indices of an input are %s' % ('lost' if not has else 'set although it takes all entries'), w, 'sizes')
            for e in es:
                rep.ob('sizes/indices/value', plain(e[2]) == idx, 'the source indices of an input become %s' % show(e[2]), e[3], 'sizes')
    rep.need(done, 'setup: sizes of connected inputs not found')


def access(repo, rep):
    f = repo.func('problem._get_root_var')
    rep.fn(f.qualname)
    R, N = [('param', x.arg) for x in f.node.args.args[:2]]
    res, out, I = tr(repo, f, None, calls=('_rec_get_param',))

    def atom(t, x):
        if t[0] == 'in' and t[1] == N and t[2][0] == 'attr':
            return {'unknowns': 'unknown', 'params': 'param', 'to_abs_pnames': 'input', 'dangling': 'free'}.get(t[2][2]), x
        return None, x
    for ev, facts, v, st in res:
        d = dict(atom(k, x) for k, x in facts.items())
        if d.get('unknown') is True:
            rep.ob('read/output', v == ('sub', ('attr', R, 'unknowns'), N), 'reading an output returns %s' % show(v), where(f), 'access')
        elif d.get('param') is True:
            rep.ob('read/input', v == ('sub', ('attr', R, 'params'), N), 'reading an input of the root returns %s' % show(v), where(f), 'access')
        elif v[0] == 'call' and ext_tail(v[1]) == '_rec_get_param':
            x = v[2][0]
            ok = v[1][1] == R and x[0] == 'sub' and x[1][0] == 'sub' and x[1][2] == N and x[1][1][0] == 'attr' and x[1][1][2] in ('to_abs_pnames', 'dangling')
            rep.ob('read/promoted', ok, 'reading a promoted input returns that of %s' % show(x), where(f), 'access')
        else:
            rep.ob('read/other', False, 'reading a variable returns %s' % show(v), where(f), 'access')
    rep.need(res, '_get_root_var was not understood')
    f = repo.func('problem._set_root_var')
    rep.fn(f.qualname)
    R, N, V = [('param', x.arg) for x in f.node.args.args[:3]]
    res, out, I = tr(repo, f, None, calls=('_rec_set_param',), cells=lambda c: c[0] == 'sub')
    n = 0
    for ev, facts, v, st in res:
        d = dict(atom(k, x) for k, x in facts.items())
        wr = []
        for e in ev:
            if e[0] == 'set':
                wr.append((e[1][1], e[1][2], e[2], e[3]))
            else:
                wr.append((e[2][1], e[3][0], e[3][1] if len(e[3]) > 1 else T.NONE, e[5]))
        if d.get('unknown') is True:
            n += 1
            rep.ob('write/output', len(wr) == 1 and wr[0][:3] == (('attr', R, 'unknowns'), N, V), 'setting an output does something else', where(f), 'access')
        elif d.get('free') is True:
            D = next((('sub', k[2], N) for k in facts if k[0] == 'in' and k[2][0] == 'attr' and k[2][2] == 'dangling'), None)
            if facts.get(('nonempty', D)) is False:
                continue
            n += 1
            el = ('elem', D)
            rep.ob('write/joined', len(wr) == 1, 'an input joined to the one that is set is not set', where(f), 'access')
            for box, key, val, loc in wr:
                rep.ob('write/value', val == V and (box == ('attr', R, 'params') and key == el or mentions(box, lambda z: z == el) and mentions(key, lambda z: z == el)) or val == V and box == R and key == el, 'setting an input sets %s to %s' % (show(key), show(val)), loc, 'access')
        else:
            rep.ob('write/unknown name', not wr and d.get('free') is not None, 'a name that is no variable is set', where(f), 'access')
    rep.need(n, '_set_root_var was not understood')
    # the recursion used by both
    cls = repo.cls('System')
    for nm, ev_ in (('_rec_get_param', None), ('_rec_set_param', None)):
        f = repo.method(cls, nm)
        rep.fn(f.qualname)
        N = ('param', pn(f)[0])
        res, out, I = tr(repo, f, cls, calls=('_rec_get_param', '_rec_set_param'), cells=lambda c: c[0] == 'sub')
        n = 0
        for e_, facts, v, st in res:
            deep = [e for e in e_ if e[0] == 'call' and e[1] == nm]
            parts = lambda k: lambda z: z[0] == 'sub' and z[2] == T.const(k) and z[1][0] == 'call' and ext_tail(z[1][1]) in ('split', 'partition') and z[1][1][1] == N
            n += 1
            for e in deep:
                ok = mentions(e[2], lambda z: z == ('attr', T.SELF, '_subsystems')) and mentions(e[2], parts(0)) and (parts(1)(e[3][0]) or parts(2)(e[3][0]))
                rep.ob(nm + '/deep', ok and e[3][1:] == tuple(('param', x) for x in pn(f)[1:]), 'a variable of a subsystem is looked up as %s' % show(e[3][0]), e[5], 'access')
                sp = [z for z in T.subterms(e[3][0]) if z[0] == 'call' and ext_tail(z[1]) == 'split']
                rep.ob(nm + '/split', all(z[2][0] == T.const('.') and (z[2][1:] == (T.const(1),) or ('maxsplit', T.const(1)) in z[3]) for z in sp), 'a path is split in more than two parts', e[5], 'access')
            if not deep:
                if nm == '_rec_get_param':
                    ok = v in (('sub', ('attr', T.SELF, 'params'), N),) or v[0] == 'sub' and v[1] == ('attr', T.SELF, 'params') and parts(0)(v[2])
                else:
                    ok = any(e[0] == 'set' and e[1][1] == ('attr', T.SELF, 'params') and e[2] == ('param', pn(f)[1]) for e in e_)
                rep.ob(nm + '/own', ok, 'a variable of the system itself is not accessed', where(f), 'access')
        rep.need(n >= 2, nm + ' was not understood')


def check(repo, rep, tier):
    declared(repo, rep)
    naming(repo, rep)
    connections(repo, rep)
    sizes(repo, rep)
    access(repo, rep)
