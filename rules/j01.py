"""J01: restricting a solve to a variable of interest leaves out only what cannot matter."""
import ast

from rules import t01
from sa import terms as T
from sa.events import Trace, traces
from sa.slices import outer_loops, picked, pn, reach, tr, unit
from sa.util import *

EXPLANATION = (
    'The routine that computes what is relevant is interpreted once for a generic input, output and connection with every '
    'set as a named container; what is put into each container, and under which conditions, is read off its paths.  The '
    'systems kept must contain reach(graph, input) ∩ reach(reversed graph, output), the variables kept both ends of '
    'every connection between kept components, the states of kept components and the kept variables of interest '
    'themselves.  The places that skip a system, a variable, a connection or a derivative are then shown to do so only '
    'when these sets say so, and the restriction a Newton step places on its inputs to keep every input fed from inside.')
RULE = 'skipped(x, voi) => x not in relevant[voi]; relevant[voi] >= every system and variable on a path input -> output'
ASSUMPTIONS = ['networkx searches return every node that can be reached', 'a name decides its component (variables contain no dot)']

S = T.SELF
GROW = ('update', 'add', 'append', 'extend', 'union', 'intersection')


def norm(t):
    """a term without the sites of its calls"""
    if not isinstance(t, tuple):
        return frozenset(norm(x) for x in t) if isinstance(t, frozenset) else t
    if t and t[0] == 'call' and len(t) == 5:
        return ('call', norm(t[1]), norm(t[2]), norm(t[3]), None)
    if t and t[0] == 'list' and len(t) == 3:
        return t
    return tuple(norm(x) for x in t)


class Sets(Trace):
    max_states = 60000

    def __init__(self, **kw):
        Trace.__init__(self, **kw)
        self.havoc_containers = True

    def on_call(self, I, st, fn, args, kwargs, node):
        if fn in (('ext', 'set'), ('ext', 'frozenset')) and len(args) < 2:
            return [(st, ('list', (), ('set', tuple(args), node.lineno, node.col_offset, I.frame.ctx)))]
        return Trace.on_call(self, I, st, fn, args, kwargs, node)

    def inplace(self, cell, old):
        return True


def const_call(t, name, *args):
    return t[0] == 'call' and ext_tail(t[1]) == name and t[2] == tuple(args)


def comp_of(t):
    """the variable a term is the component of"""
    if t[0] == 'sub' and t[2] == T.const(0) and t[1][0] == 'call' and ext_tail(t[1][1]) in ('rsplit', 'rpartition'):
        n = ext_tail(t[1][1])
        if t[1][2] == ((T.const('.'), T.const(1)) if n == 'rsplit' else (T.const('.'),)):
            return t[1][1][1]
    return None


def same_table(a, b):
    a, b = norm(a), norm(b)
    return a == b or a[0] == 'mu' == b[0] and a[2] == b[2]


def reached(t, graph):
    """(start, backwards, with the start) of an expression that lists the nodes reached from a node"""
    if t[0] == 'comp' and len(t) == 5:
        its = t[3]
        if len(its) == 1 and not t[4]:
            src = its[0][1] if isinstance(its[0], tuple) and its[0] and not isinstance(its[0][0], str) else its[0]
            e = t[2]
            if e == ('sub', ('elem', src), T.const(1)):
                r = walk(src, graph, ('dfs_edges', 'bfs_edges', 'edge_dfs'))
                return r and (r[0], r[1], False)
            if e == ('elem', src):
                return reached(src, graph)
        return None
    if t[0] == 'call':
        n = ext_tail(t[1])
        if n in ('set', 'list', 'tuple', 'iter', 'sorted', 'frozenset') and len(t[2]) == 1 and t[1][0] == 'ext':
            return reached(t[2][0], graph)
        r = walk(t, graph, ('descendants',))
        if r:
            return r[0], r[1], False
        r = walk(t, graph, ('ancestors',))
        if r:
            return r[0], not r[1], False
        r = walk(t, graph, ('dfs_preorder_nodes', 'dfs_postorder_nodes', 'dfs_tree', 'bfs_tree', 'single_source_shortest_path_length', 'single_source_shortest_path'))
        if r:
            return r[0], r[1], True
    return None


def walk(t, graph, names):
    if t[0] != 'call' or ext_tail(t[1]) not in names or len(t[2]) != 2:
        return None
    g, c = t[2]
    back = False
    while g[0] == 'call' and ext_tail(g[1]) == 'reverse' and g[1][0] == 'attr':
        g, back = g[1][1], not back
    return (c, back) if g == graph else None


class Path(object):
    """one path: its facts and what it puts into each container"""

    def __init__(self, repo, f, I, ev, facts, graph):
        self.repo, self.f, self.I, self.graph = repo, f, I, graph
        self.facts = {norm(k): x for k, x in facts.items()}
        self.adds, self.stored = {}, []
        for e in ev:
            if e[0] == 'set':
                self.stored.append((norm(e[1]), e[2], e[3]))
            elif e[0] == 'call' and e[1] in GROW and e[2][0] == 'attr' and len(e[3]) == 1 and e[1] not in ('union', 'intersection'):
                one = e[1] in ('add', 'append')
                self.adds.setdefault(norm(e[2][1]), []).append((one, e[3][0], e[5]))
            elif e[0] == 'aug' and e[1] in ('|', '+', 'bitor', 'add'):
                self.adds.setdefault(norm(e[2]), []).append((False, e[3], e[4]))

    def parts(self, t, seen=()):
        """what a container holds: ('one', x) | ('reach', start, backwards) | ('both', container, container) | ('all', x)"""
        n = norm(t)
        out = []
        if n in seen:
            return out
        seen += (n,)
        if t[0] == 'phi':
            for x in sorted(t[1], key=repr):
                out += self.parts(x, seen)
            return out
        if t[0] in ('list', 'tuple', 'set'):
            for x in t[1]:
                out += self.parts(x[1], seen) if x[0] == 'star' else [('one', norm(x))]
            if len(t) == 3 and isinstance(t[2], tuple) and t[2] and t[2][0] == 'set':
                for a in t[2][1]:
                    out += self.parts(a, seen)
        elif t[0] == 'bin' and t[1] in ('+', '|'):
            out += self.parts(t[2], seen) + self.parts(t[3], seen)
        elif t[0] == 'bin' and t[1] == '&':
            out.append(('both', t[2], t[3]))
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'intersection' and len(t[2]) == 1:
            out.append(('both', t[1][1], t[2][0]))
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'union':
            out += self.parts(t[1][1], seen)
            for a in t[2]:
                out += self.parts(a, seen)
        elif t[0] == 'call' and t[1][0] == 'ext' and ext_tail(t[1]) in ('set', 'list', 'tuple', 'sorted', 'frozenset', 'iter') and len(t[2]) == 1:
            out += self.parts(t[2][0], seen)
        elif t[0] == 'comp' and reached(n, self.graph) is None:
            both = self.filtered(t)
            out += [both] if both else [('all', n)]
        else:
            r = reached(n, self.graph)
            if r:
                out.append(('reach', r[0], r[1]))
                if r[2]:
                    out.append(('one', r[0]))
            elif t[0] not in ('mu', 'sub', 'param', 'attr'):
                out.append(('all', n))
        for one, x, loc in self.adds.get(n, ()):
            if one:
                m = norm(x)
                got = None
                if m[0] == 'elem':
                    for k, y in self.facts.items():
                        if k[0] == 'in' and k[1] == m and y is True:
                            got = ('both', m[1], k[2])
                if m[0] == 'sub' and m[2] == T.const(1) and m[1][0] == 'elem':
                    r = walk(m[1][1], self.graph, ('dfs_edges', 'bfs_edges', 'edge_dfs'))
                    if r:
                        got = ('reach', r[0], r[1])
                if got is None and m[0] == 'elem':
                    r = reached(m[1], self.graph)
                    if r:
                        got = ('reach', r[0], r[1])
                        if r[2]:
                            out.append(('one', r[0]))
                out.append(got or ('one', m))
            else:
                sub = self.parts(x, seen)
                out += sub if sub else [('all', norm(x))]
        return out

    def filtered(self, t):
        its = t[3]
        if len(its) != 1:
            return None
        src = its[0][1] if isinstance(its[0], tuple) and its[0] and not isinstance(its[0][0], str) else its[0]
        if t[2] != ('elem', src):
            return None
        for cases in picked(self.repo, self.f, self.f.cls, self.I, t):
            both = {k[2] for facts, taken in cases for k, x in facts.items() if k[0] == 'in' and k[1] == ('elem', src)}
            if len(both) == 1:
                c = both.pop()
                if all(taken == facts.get(('in', ('elem', src), c)) for facts, taken in cases):
                    return ('both', src, c)
        return None

    def reach_of(self, t):
        """(start, backwards) when a container holds a node and everything reached from it"""
        ps = self.parts(t)
        for p in ps:
            if p[0] == 'reach' and ('one', p[1]) in ps:
                return p[1], p[2]
        return None

    def holds(self, table, key):
        """the containers a table has under a key"""
        return [v for c, v, loc in self.stored if c[0] == 'sub' and same_table(c[1], table) and c[2] == key] + [('sub', table, key)]

    def content(self, table, key):
        out = []
        for c in self.holds(table, key):
            for p in self.parts(c):
                if p not in out:
                    out.append(p)
        return out

    def no(self, *keys):
        return any(self.facts.get(k) is False for k in keys)


# ---------------------------------------------------------------- membership


def members(repo, rep, cls):
    """the tables the two questions are answered from"""
    f = repo.method(cls, 'is_relevant_system')
    rep.need(f, 'is_relevant_system not found')
    rep.fn(f.qualname)
    voi, system = [('param', x) for x in pn(f)]
    tabs = set()
    res, out, I = tr(repo, f, cls)
    for ev, facts, v, st in res:
        for cond, val in questions(v, facts):
            tab = member_of(val, ('attr', system, 'pathname'), voi)
            if tab:
                tabs.add(tab)
                continue
            none = cond.get(('is', voi, T.NONE))
            yes = val == T.TRUE
            known = [k for k, x in cond.items() if x is True and member_of(k, ('attr', system, 'pathname'), voi)]
            unknown = [k for k, x in cond.items() if x is False and (member_of(k, ('attr', system, 'pathname'), voi))]
            tabs |= {member_of(k, ('attr', system, 'pathname'), voi) for k in known + unknown}
            rep.ob('systems/asked', yes or bool(unknown), 'a system is taken for irrelevant without being looked up: %s' % T.show(val), where(f), 'member')
            if none is True:
                rep.ob('systems/all', yes, 'with no variable of interest a system is left out', where(f), 'member')
    # with none, everything
    ok = False
    for ev, facts, v, st in tr(repo, f, cls, env={pn(f)[0]: T.NONE})[0]:
        ok = v == T.TRUE or facts.get(v) is True
        rep.ob('systems/none', ok, 'with no variable of interest a system is left out', where(f), 'member')
    rep.need(len(tabs) == 1, 'the table of relevant systems was not found')
    systems = tabs.pop()
    f = repo.method(cls, 'is_relevant')
    rep.need(f, 'is_relevant not found')
    rep.fn(f.qualname)
    voi, var = [('param', x) for x in pn(f)]
    tabs = set()
    for ev, facts, v, st in tr(repo, f, cls, throws=True)[0]:
        for cond, val in questions(v, facts):
            tab = member_of(val, var, voi)
            if tab:
                tabs.add(tab)
            else:
                unknown = [k for k, x in cond.items() if x is False and member_of(k, var, voi)]
                tabs |= {member_of(k, var, voi) for k in unknown}
                rep.ob('variables/asked', val == T.TRUE or bool(unknown), 'a variable is taken for irrelevant without being looked up: %s' % T.show(val), where(f), 'member')
    rep.need(len(tabs) == 1, 'the table of relevant variables was not found')
    variables = tabs.pop()
    rep.ob('tables', systems != variables, 'systems and variables are looked up in the same table', where(f), 'member')
    return systems, variables


def questions(v, facts):
    """(facts, value) of each way an answer is made, with or/and taken apart"""
    if v[0] == 'phi':
        return [y for x in v[1] for y in questions(x, facts)]
    if v[0] == 'or':
        out, f = [], dict(facts)
        for x in v[1:] if len(v) > 2 else v[1]:
            g = dict(f)
            m = x
            out.append((g, m)) if m[0] == 'in' else out.append((dict(f, **{}), T.TRUE if m[0] == 'is' else m))
            f[x] = False
        return out
    return [(facts, v)]


def member_of(t, what, voi):
    if t[0] == 'in' and t[1] == what:
        r = t[2]
        if r[0] in ('sub', 'get') and r[2] == voi:
            return r[1]
    return None


# ---------------------------------------------------------------- the sets


def systems_kept(repo, rep, cls, systab, vartab):
    writers = [f for f in repo.all_functions() if f.cls is cls and any(isinstance(n, ast.Attribute) and n.attr == systab[2] and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))]
    rep.need(len(writers) == 1, 'the routine that computes what is relevant was not found')
    f = writers[0]
    rep.fn(f.qualname)
    c = Sets(calls=GROW + ('reverse', 'dfs_edges'))
    res, out, I = traces(repo, f, cls, client=c)
    graphs = set()
    rep.need(res, 'the routine that computes what is relevant was not understood')
    G = None
    for ev, facts, v, st in res:
        for k in facts:
            if k[0] == 'in' and comp_of(k[1]) and k[2][0] == 'attr' and k[2][1] == S:
                graphs.add(k[2])
    rep.need(len(graphs) == 1, 'the graph of systems was not found')
    G = graphs.pop()
    INS, OUTS = ('elem', ('elem', ('attr', S, 'inputs'))), ('elem', ('elem', ('attr', S, 'outputs')))
    n = 0
    for ev, facts, v, st in res:
        if any(k[0] == 'nonempty' and x is False for k, x in facts.items()):
            continue
        p = Path(repo, f, I, ev, facts, G)
        D1 = [v2 for c2, v2, loc in p.stored if c2 == systab]
        D2 = [v2 for c2, v2, loc in p.stored if c2 == vartab]
        if not D1 or not D2:
            rep.ob('tables/stored', False, 'what is relevant is not stored on some path', where(f), 'sets')
            continue
        D1, D2 = D1[-1], D2[-1]
        rep.saw('paths')
        absent = [k for k, x in p.facts.items() if k[0] == 'in' and comp_of(k[1]) and k[2] == G and x is False]
        # ---- nothing kept is lost again
        for c2, v2, loc in p.stored:
            if c2[0] == 'sub' and same_table(c2[1], D1) and c2[2] in (INS, OUTS) and v2[0] != 'list':
                other = OUTS if c2[2] == INS else INS
                found = [var_comp(r[0]) for q in p.parts(v2) if q[0] == 'both' for r in (p.reach_of(q[1]), p.reach_of(q[2])) if r]
                rep.ob('systems/overwritten', other not in found or any(z == c2 or z in [norm(y) for y in p.holds(D1, c2[2])[:-1] if norm(y) != norm(v2)] for z in every(norm(v2))), 'the systems kept for one pair of variables replace those kept for another', loc, 'sets')
        # ---- systems between an input and an output
        for what, key in (('output', OUTS), ('input', INS)):
            got = p.content(D1, key)
            sides = set()
            for q in got:
                if q[0] == 'both':
                    a, b = p.reach_of(q[1]), p.reach_of(q[2])
                    if a and b:
                        sides.add(frozenset([a, b]))
            names = set()
            for sd in sides:
                names.add(frozenset((var_comp(x), back) for x, back in sd))
            want = frozenset([(INS, False), (OUTS, True)])
            # more than the systems in between would do no harm
            big = [q for q in got if q[0] == 'reach']
            ok = want in names or bool(big) and any(var_comp(q[1]) == (OUTS if q[2] else INS) for q in big)
            if not absent:
                n += 1
                rep.ob('systems/of an %s' % what, ok, 'the systems kept for an %s are not those between the inputs and the outputs' % what, where(f), 'sets')
        # ---- their ancestors
        key = ('elem', D1)
        allsys = set()
        for c2 in p.holds(D1, key):
            m = norm(c2)
            for one, x, loc in p.adds.get(m, ()):
                if one:
                    allsys.add(norm(x))
                else:
                    allsys |= {norm(e) for e in elements(p, x)}
                    rep.ob('systems/ancestors of all', not started_over(f, x, loc), 'only the groups the last system is in are kept', loc, 'sets')
        top = any(x is False and (k[0] == 'in' and k[1] == T.const('.') and k[2][0] == 'elem' or comp_of(k) is not None and comp_of(k)[0] == 'elem') for k, x in p.facts.items())
        if not top:
            rep.ob('systems/ancestors', any(ancestors(x, f) for x in allsys), 'the groups a kept system is in are not kept', where(f), 'sets')
        # ---- variables
        kept = p.content(D2, key) or p.content(D2, ('elem', D2))
        ones = {q[1] for q in kept if q[0] == 'one'}
        relc = ('sub', D1, key)
        rep.need(len(pn(f)) > 1, 'the connections were not found')
        conn = ('param', pn(f)[1])
        tgt = ('elem', conn)
        src = ('sub', ('sub', conn, tgt), T.const(0))
        prom = lambda x: [y for y in ones if y[0] == 'sub' and y[1][0] == 'attr' and y[1][2] == 'to_prom_name' and y[2] == x]
        ends = [decided_in(p, x, relc) for x in (tgt, src)]
        if False not in ends:
            for what, x in (('target', tgt), ('source', src)):
                rep.ob('variables/' + what, bool(prom(x)), 'the %s of a connection between kept systems is not kept' % what, where(f), 'sets')
        # states
        ud = ('attr', S, 'unknowns_dict')
        u = ('elem', ud)
        meta = ('sub', ud, u)
        isst = [x for k, x in p.facts.items() if k[0] in ('get', 'sub') and k[1] == meta and k[2] == T.const('state') or k == ('in', T.const('state'), meta)]
        if False not in isst and decided_in(p, u, relc, meta) is not False:
            rep.ob('variables/state', ('sub', meta, T.const('top_promoted_name')) in ones, 'a state of a kept system is not kept', where(f), 'sets')
        # variables of interest themselves
        own = [k for k, x in p.facts.items() if k[0] == 'in' and k[2] == relc and x is False and voi_comp(k[1], D1)]
        if not own:
            rep.ob('variables/of interest', key in ones, 'a variable of interest on a kept system is not kept', where(f), 'sets')
    rep.need(n, 'the systems kept were not understood')
    return G


def started_over(f, x, loc):
    """is a container that is filled in an inner loop read only after the loop around it?"""
    if x[0] != 'mu':
        return False
    line, at = x[1][0], int(loc.rsplit(':', 1)[1])
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)) and n.lineno < line <= n.end_lineno and at > n.end_lineno:
            return True
    return False


def elements(p, x):
    """what a container put into another one brings along"""
    out = []
    if x[0] == 'comp':
        return [x[2]]
    if x[0] == 'phi':
        return [y for z in x[1] for y in elements(p, z)]
    for one, y, loc in p.adds.get(norm(x), ()):
        out += [y] if one else elements(p, y)
    if x[0] == 'list' and len(x) == 3 and isinstance(x[2], tuple) and x[2] and x[2][0] == 'set':
        for a in x[2][1]:
            out += elements(p, a)
    return out


def voi_comp(t, D1):
    """the component of a generic variable of interest, possibly read from a list of them"""
    v = comp_of(t)
    if v is not None and v[0] == 'sub' and v[2] == ('elem', D1):
        return True
    return T.contains(t, lambda z: z == ('idx', D1) or z == ('elem', D1)) and (t[0] in ('sub', 'elem') or v is not None)


def var_comp(t):
    """the variable of interest whose component a term is"""
    v = comp_of(t)
    if v is not None and v[0] == 'sub' and v[1][0] == 'attr' and v[1][2] == 'to_abs_uname':
        return v[2]
    return None


def decided_in(p, var, relc, meta=None):
    """whether a path found the component of a variable among the kept systems"""
    for k, x in p.facts.items():
        if k[0] == 'in' and k[2] == relc:
            v = comp_of(k[1])
            if v == var or meta is not None and v in (('sub', meta, T.const('pathname')),):
                return x
    return None


def ancestors(t, f):
    """is a term the name of every group a kept system is in: '.'.join(prefix of split name)?"""
    sysname = lambda z: z[0] == 'elem'
    if t[0] == 'call' and t[1] == ('attr', T.const('.'), 'join') and len(t[2]) == 1:
        s = t[2][0]
        cut = 0                              # entries left off the end so far
        if s[0] == 'sub' and s[2][0] == 'slice' and s[2][1] in (T.NONE, T.const(0)) and s[2][3] == T.NONE:
            base, hi = s[1], s[2][2]
            full = base
            if base[0] == 'sub' and base[2][0] == 'slice' and base[2][1] in (T.NONE, T.const(0)) and base[2][2][0] in ('const', 'un'):
                k = base[2][2]
                cut = k[1] if k[0] == 'const' else -k[2][1] if k[2][0] == 'const' else None
                if not isinstance(cut, int) or cut >= 0 or cut < -1:
                    return False
                cut = -cut
                full = base[1]
            if not (full[0] == 'call' and ext_tail(full[1]) == 'split' and full[2] == (T.const('.'),) and sysname(full[1][1])):
                return False
            it, off = offset(hi)
            if it is None or it[0] != 'elem':
                return False
            r = it[1]
            if r[0] == 'call' and ext_tail(r[1]) == 'range':
                a = r[2]
                lo, hi2 = (T.const(0), a[0]) if len(a) == 1 else a[:2]
                n, d = offset(hi2)
                if lo[0] != 'const' or n is None or not (n[0] == 'call' and ext_tail(n[1]) == 'len' and len(n[2]) == 1):
                    return False
                m = n[2][0]
                # lengths lo+off .. len(m)+d-1+off, all of 1 .. (number of parts - 1) wanted
                short = 1 if m == base and cut else 0 if m == full else None
                if m == base and not cut:
                    short = 0
                if short is None:
                    return False
                return lo[1] + off <= 1 and d - 1 + off - short >= -1
            if r[0] == 'call' and ext_tail(r[1]) == 'accumulate':
                return True
        return False
    v = comp_of(t)
    climbs = any(isinstance(n, ast.While) and any(isinstance(x, ast.Attribute) and x.attr in ('rsplit', 'rpartition') for x in ast.walk(n)) for n in ast.walk(f.node))
    return climbs and (t[0] == 'mu' or v is not None and (v[0] in ('mu', 'elem', 'phi') or comp_of(v) is not None))


def offset(t):
    """t == base + constant"""
    if t[0] == 'bin' and t[1] == '+' and t[3][0] == 'const':
        b, k = offset(t[2])
        return b, k + t[3][1]
    if t[0] == 'bin' and t[1] == '+' and t[2][0] == 'const':
        b, k = offset(t[3])
        return b, k + t[2][1]
    if t[0] == 'bin' and t[1] == '-' and t[3][0] == 'const':
        b, k = offset(t[2])
        return b, k - t[3][1]
    return t, 0


# ---------------------------------------------------------------- the graph


def graph(repo, rep, cls, G, vartab):
    f = repo.method(cls, '__init__')
    rep.fn(f.qualname)
    mk = repo.method(cls, '_setup_sys_graph')
    rep.need(mk, '_setup_sys_graph not found')
    res, out, I = tr(repo, f, cls, calls=('_setup_sys_graph', 'update'), stop=('_compute_relevant_vars',), cells=lambda c: True)
    n = 0
    for ev, facts, v, st in res:
        if any(k[0] == 'nonempty' and x is False for k, x in facts.items()):
            continue
        n += 1
        # with none, every variable
        got = set()
        for e in ev:
            if e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == T.NONE and e[1][1] == vartab:
                got |= names_in(e[2])
            if e[0] == 'call' and e[1] == 'update' and e[2][1][0] in ('sub', 'call', 'list'):
                for a in e[3]:
                    got |= names_in(a)
            if e[0] == 'aug' and e[2] == ('sub', vartab, T.NONE):
                got |= names_in(e[3])
        for what in ('unknowns_dict', 'params_dict'):
            rep.ob('none/' + what, any(x[1] == what for x in got), 'with no variable of interest the %s are not all kept' % what.split('_')[0], where(f), 'none')
        built = [e for e in ev if e[0] == 'set' and e[1] == G]
        rep.ob('graph/built', bool(built) and norm(built[-1][2])[0] == 'call' and ext_tail(built[-1][2][1]) == '_setup_sys_graph', 'the graph of systems is not built anew', where(f), 'graph')
        cs = [e for e in ev if e[0] == 'call' and e[1] == '_setup_sys_graph']
        for e in cs:
            given = dict(zip(pn(mk), e[3]))
            given.update(dict(e[4]))
            for p in pn(mk):
                if p in pn(f):
                    rep.ob('graph/given ' + p, given.get(p) == ('param', p), 'the graph of systems is built from another %s' % p, e[5], 'graph')
    rep.need(n, 'Relevance.__init__ was not understood')
    f = mk
    rep.fn(f.qualname)
    res, out, I = tr(repo, f, cls, calls=('add_edge', 'add_nodes_from', 'add_node', 'subsystems', 'add_edges_from', 'has_edge'), cells=lambda c: True)
    conn = ('param', pn(f)[1])
    tgt = ('elem', conn)
    src = ('sub', ('sub', conn, tgt), T.const(0))
    n = 0
    for ev, facts, v, st in res:
        if facts.get(('nonempty', conn)) is False:
            continue
        v = norm(v)
        edges = [norm(e[3][:2]) for e in ev if e[0] == 'call' and e[1] == 'add_edge' and norm(e[2][1]) == v]
        has = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'has_edge' and [comp_of(norm(y)) for y in k[2]] == [src, tgt]
               or k[0] == 'in' and comp_of(norm(k[1])) == tgt and k[2][0] == 'sub' and comp_of(norm(k[2][2])) == src]
        n += 1
        rep.ob('graph/edges', True in has or any([comp_of(x) for x in e] == [src, tgt] for e in edges), 'a connection puts no edge from its source to its target into the graph', where(f), 'graph')
        nodes = [e for e in ev if e[0] == 'call' and e[1] in ('add_nodes_from', 'add_node') and e[3]]
        ok = False
        for e in nodes:
            for w in [e[3][0]]:
                subs = [z for z in every(w) if z[0] == 'call' and ext_tail(z[1]) == 'subsystems']
                ok = ok or any(dict(z[3]).get('recurse') == T.TRUE or T.TRUE in z[2] for z in subs)
        rep.ob('graph/nodes', ok, 'a system without connections is not in the graph', where(f), 'graph')
    rep.need(n, '_setup_sys_graph was not understood')


def every(t):
    out = []

    def rec(z):
        if isinstance(z, (tuple, frozenset)):
            if isinstance(z, tuple) and z and isinstance(z[0], str):
                out.append(z)
            for y in z:
                rec(y)
    rec(t)
    return out


def names_in(t):
    """(name field, table) of comprehensions over tables of metadata"""
    out = set()
    for z in every(t):
        if z[0] == 'comp' and not z[4] and z[2][0] == 'sub' and z[2][2] == T.const('top_promoted_name'):
            for y in every(z[2]):
                if y[0] == 'param':
                    out.add(('top_promoted_name', y[1]))
                if y[0] == 'attr' and y[1] == S:
                    out.add(('top_promoted_name', y[2]))
    return out


# ---------------------------------------------------------------- where things are left out


def skipping(repo, rep):
    C = repo.cls('System')
    f = repo.method(C, '_sys_apply_linear')
    rep.need(f, 'System._sys_apply_linear not found')
    rep.fn(f.qualname)
    n = 0
    for mode in ('fwd', 'rev'):
        res, out, I = tr(repo, f, C, calls=('is_relevant_system',), stop=('_apply_linear_jac', 'apply_linear'), cells=lambda c: mentions_attr(c, 'vec') or mentions_attr(c, 'val'), env={'mode': T.const(mode)}, keep=lambda k: k[0] == 'call' and ext_tail(k[1]) == 'is_relevant_system' or k[0] == 'nonempty')
        for ev, facts, v, st in res:
            if facts.get(('nonempty', ('param', 'vois'))) is False:
                continue
            n += 1
            asked = [(k, x) for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'is_relevant_system']
            for k, x in asked:
                rep.ob('apply/asked', k[2] == (('elem', ('param', 'vois')), S), 'relevance is asked for %s' % ', '.join(T.show(y) for y in k[2]), where(f), 'skip')
            touched = any(e[0] in ('set', 'aug') for e in ev)
            rep.ob('apply/%s skipped' % mode, touched or any(x is False for k, x in asked), 'a system is skipped although it may be relevant', where(f), 'skip')
    rep.need(n, 'System._sys_apply_linear was not understood')
    for h, loop in outer_loops(repo, f, lambda x: isinstance(x, ast.Attribute) and x.attr == 'drmat'):
        for b in leaves(loop.body):
            rep.ob('apply/rest', False, 'the variables of interest after this one are not looked at', where(h, b), 'skip')


def leaves(body):
    """statements that leave the loop this is the body of"""
    out = []
    for n in body:
        if isinstance(n, (ast.Break, ast.Return)):
            out.append(n)
        elif isinstance(n, (ast.For, ast.While)):
            out += [x for x in leaves(n.body) if isinstance(x, ast.Return)]
        else:
            for fld in ('body', 'orelse', 'finalbody'):
                out += leaves(getattr(n, fld, []) or [])
    return out


def variables_left_out(repo, rep):
    for cn in ('SrcVecWrapper', 'TgtVecWrapper'):
        cls = repo.cls(cn)
        f = repo.method(cls, 'setup')
        rep.fn(f.qualname)
        d = [x for x in pn(f) if x.endswith('s_dict')]
        rep.need(d, '%s.setup was not understood' % cn)
        loops = [l for g, l in outer_loops(repo, f, lambda x: isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', None)) in ('is_relevant',))]
        rep.need(len(loops) == 1, '%s.setup: where variables are chosen was not found' % cn)
        from rules.v02 import passes
        u, done, I = passes(repo, f, loops[0], cls, calls=('is_relevant', 'append'), cells=lambda c: True)
        for ev, facts, env in done:
            out_of_scope = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'is_relevant']
            for k in facts:
                if k[0] == 'call' and ext_tail(k[1]) == 'is_relevant':
                    a = k[2]
                    rep.ob(cn + '/asked', len(a) == 2 and a[0] == ('param', 'var_of_interest') and a[1][0] == 'sub' and a[1][2] == T.const('top_promoted_name'), 'relevance is asked for %s' % ', '.join(T.show(y) for y in a), where(f), 'variables')
            put = any(e[0] == 'set' and e[1][0] == 'sub' and mentions_attr(e[1], '_dat') for e in ev) or any(e[0] == 'call' and e[1] == 'append' for e in ev)
            if cn == 'SrcVecWrapper':
                rep.ob(cn + '/left out', put or False in out_of_scope, 'a variable is left out of the vector although it may be relevant', where(f), 'variables')
            elif not put:
                owner = [x for k, x in facts.items() if k[0] == 'in']
                rep.ob(cn + '/left out', False in out_of_scope or False in owner or any(k[0] == 'is' and x is True for k, x in facts.items()), 'a variable is left out of the vector although it may be relevant', where(f), 'variables')


def requested(repo, rep):
    """vectors of their own only when everything asked for is of interest"""
    P = repo.cls('Problem')
    f = repo.method(P, '_calc_gradient_ln_solver')
    rep.need(f, '_calc_gradient_ln_solver not found')
    rep.fn(f.qualname)
    key = repo.method(P, '_get_voi_key')
    rep.need(key, '_get_voi_key not found')
    loops = outer_loops(repo, f, lambda x: isinstance(x, ast.Call) and getattr(x.func, 'attr', None) == 'solve')
    rep.need(len(loops) == 1, 'the loop of solves was not found')
    g, loop = loops[0]
    n = 0
    for mode in ('fwd', 'rev'):
        for fmt in ('array',):
            main, names, binds = t01.roles(repo, rep, P, f, g, loop, mode, fmt)
            for env, runs in binds:
                c = t01.Fixed(mode, fmt, calls=('_get_voi_key',), cells=lambda c: False)
                res, out, I = traces(repo, main, P, client=c, env=env)
                for ev, facts, v, st in res:
                    for e in ev:
                        if e[0] != 'call' or e[1] != '_get_voi_key':
                            continue
                        n += 1
                        extra = list(e[3][2:]) + [y for k, y in e[4]]
                        other = 'rev' if mode == 'fwd' else 'fwd'
                        give = t01.UNK if mode == 'fwd' else t01.IND
                        want = lambda z: z[0] == 'call' and ext_tail(z[1]) == 'vars_of_interest' and T.const(other) in z[2] + tuple(y for k, y in z[3])
                        if extra:
                            ok = any(covers(x, want, give) for x in extra)
                        else:
                            ok = any(x is True and covers(k, want, give) for k, x in facts.items())
                        rep.ob('requested/%s' % mode, ok, 'vectors that hold only what connects the variables of interest are used for derivatives of other variables', e[5], 'requested')
    rep.need(n, 'where vectors are chosen was not understood')
    # the flag decides
    if len(pn(key)) > 2:
        for ev, facts, v, st in tr(repo, key, P, env={pn(key)[2]: T.FALSE})[0]:
            rep.ob('requested/flag', v == T.NONE, 'vectors of their own are used although not everything asked for is of interest', where(key), 'requested')


def covers(t, want, give):
    """does a truth value say that everything in a list is among the variables of interest of the other side?"""
    has = any(want(z) for z in every(t))
    if t[0] == 'call' and ext_tail(t[1]) == 'issuperset':
        return any(want(z) for z in every(t[1])) and give in t[2]
    if t[0] == 'call' and ext_tail(t[1]) == 'issubset':
        return any(z == give for z in every(t[1])) and any(want(z) for z in every(t[2]))
    if t[0] in ('le', 'lt') and t[0] == 'le':
        return any(z == give for z in every(t[1])) and any(want(z) for z in every(t[2]))
    if t[0] == 'call' and ext_tail(t[1]) == 'all':
        return has and any(z == ('elem', give) for z in every(t))
    if t[0] == 'not' and t[1][0] == 'bin' and t[1][1] == '-':
        return any(z == give for z in every(t[1][2])) and any(want(z) for z in every(t[1][3]))
    return False


# ---------------------------------------------------------------- Newton


def inside(k, var):
    """does the failed test say that the variable is unconnected or fed from outside?"""
    src = lambda z: z[0] == 'sub' and z[2] == T.const(0) and z[1][0] == 'sub' and z[1][2] == var and mentions_attr(z[1][1], 'connections')
    if k[0] == 'in':
        return k[1] == var and mentions_attr(k[2], 'connections') or src(k[1])
    return src(k[1][1]) and len(k[2]) == 1 and mentions_attr(k[2][0], 'pathname')


def newton(repo, rep):
    N = repo.cls('Newton')
    f = repo.method(N, 'setup')
    rep.fn(f.qualname)
    sub = ('param', pn(f)[0])
    res, out, I = tr(repo, f, N, cells=lambda c: c[0] == 'attr' and c[1] == S)
    stored = {}
    for ev, facts, v, st in res:
        for e in ev:
            if e[0] == 'set' and e[1] == ('attr', S, 'rel_inputs'):
                stored[e[2]] = e[3]
    n = 0
    for t, loc in stored.items():
        for c in {z for z in every(t) if z[0] == 'comp' and z[4]}:
            for cases in picked(repo, f, N, I, c):
                for facts, taken in cases:
                    n += 1
                    why = [k for k, x in facts.items() if x is False and (k[0] == 'in' or k[0] == 'call' and ext_tail(k[1]) == 'startswith')]
                    ok = taken or any(inside(k, c[2]) for k in why)
                    rep.ob('newton/kept inputs', ok, 'an input fed from inside the system is left out of a Newton step', loc, 'newton')
    rep.need(n or not stored or all(t == T.NONE for t in stored), 'the inputs of a Newton step were not understood')
    C = repo.cls('System')
    g = repo.method(C, '_sys_apply_linear')
    res, out, I = tr(repo, g, C, stop=('_apply_linear_jac',), cells=lambda c: c == ('attr', S, 'rel_inputs'), keep=lambda k: False)
    for t, loc in {(e[2], e[3]) for ev, facts, v, st in res for e in ev if e[0] == 'set'}:
        for c in {z for z in every(t) if z[0] == 'comp' and z[4]}:
            for cases in picked(repo, g, C, I, c):
                for facts, taken in cases:
                    why = [k for k, x in facts.items() if x is False and k[0] == 'call' and ext_tail(k[1]) == 'startswith' and k[1][1] == ('elem', ('param', 'rel_inputs')) and len(k[2]) == 1 and mentions_attr(k[2][0], 'pathname')]
                    rep.ob('newton/passed inputs', taken or bool(why), 'an input of the system itself is left out of a Newton step', loc, 'newton')
    # the derivative values of inputs fed from outside are cleared before each solve
    f = repo.method(N, 'solve')
    rep.fn(f.qualname)
    system = ('param', 'system')
    loops = [l for g, l in outer_loops(repo, f, lambda x: isinstance(x, ast.Call) and getattr(x.func, 'attr', None) == 'solve_linear')]
    rep.need(len(loops) == 1, 'the loop of Newton steps was not found')
    from rules.v02 import passes
    u, done, I = passes(repo, f, loops[0], N, calls=('solve_linear',), stop=('_sys_linearize',), cells=lambda c: True)
    n = 0
    for ev, facts, env in done:
        cleared = False
        for e in ev:
            if e[0] == 'set' and e[2] in (T.const(0.0), T.const(0)):
                z = e[1]
                if any(y[0] == 'sub' and y[1] == ('attr', system, 'dpmat') and y[2] == T.NONE for y in every(z)) and any(y[0] == 'call' and ext_tail(y[1]) == 'vec_val_iter' for y in every(z)):
                    cleared = True
            if e[0] == 'call' and e[1] == 'solve_linear':
                n += 1
                it = [k for k, x in facts.items() if k[0] == 'nonempty' and x is False and any(y[0] == 'call' and ext_tail(y[1]) == 'vec_val_iter' for y in every(k))]
                rep.ob('newton/inputs', cleared or bool(it), 'a Newton step uses what an outer linear solve left in the inputs of the system', e[5], 'newton')
    rep.need(n, 'the loop of Newton steps was not understood')


def applied(repo, rep):
    """a system's derivatives are left out of the products only when it has no numeric input and no state"""
    cls = repo.cls('Group')
    f = repo.method(cls, '_setup_vectors')
    rep.fn(f.qualname)
    loops = outer_loops(repo, f, lambda n: isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == '_do_apply')
    whole = [g for g in reach(repo, f).values() if any(isinstance(n, (ast.DictComp, ast.Call)) and any(isinstance(t, ast.Attribute) and t.attr == '_do_apply' for t in m.targets) for m in ast.walk(g.node) if isinstance(m, ast.Assign) for n in [m.value])]
    rep.need(loops or whole, 'the flags that leave out derivatives were not found')
    n = 0
    isflag = lambda c: c[0] == 'sub' and c[1][0] == 'attr' and c[1][2] == '_do_apply'
    states = lambda t: T.contains(t, lambda z: z[0] == 'attr' and z[2] == 'states' or z == T.const('state'))
    for g, loop in loops:
        for ev, facts, v, st in traces(repo, unit(g, loop), cls, client=Trace(cells=isflag))[0]:
            for e in ev:
                if e[0] != 'set' or not isflag(e[1]):
                    continue
                n += 1
                numeric = any(T.contains(k, lambda z: z[0] == 'attr' and z[2] == 'pbo' or z == T.const('pass_by_obj')) and x is False for k, x in facts.items())
                none = any(states(k) and x is False for k, x in facts.items())
                val = e[2]
                ok = val == T.TRUE or facts.get(val) is True
                if not ok:
                    ok = not numeric and (states(val) or none)
                rep.ob('applied/' + ('numeric' if numeric else 'states'), ok, 'the derivatives of a system with %s are left out' % ('numeric inputs' if numeric else 'states but no numeric inputs'), e[3], 'skip')
    if not loops:
        n += 1
        ok = any(isinstance(x, ast.Attribute) and x.attr == 'states' for g in whole for x in ast.walk(g.node))
        rep.ob('applied/states', ok, 'the derivatives of a system with states but no numeric inputs are left out', where(f), 'skip')
    rep.need(n, 'the flags that leave out derivatives were not understood')


def check(repo, rep, tier):
    cls = repo.cls('Relevance')
    systab, vartab = members(repo, rep, cls)
    G = systems_kept(repo, rep, cls, systab, vartab)
    graph(repo, rep, cls, G, vartab)
    skipping(repo, rep)
    variables_left_out(repo, rep)
    requested(repo, rep)
    newton(repo, rep)
    applied(repo, rep)
