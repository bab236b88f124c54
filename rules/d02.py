"""D02: gradients handed to the driver are scaled exactly once, per entry, and land in their own cell."""
from sa import terms as T
from sa.interp import Client
from sa.util import *

EXPLANATION = (
    'Symbolic cell/factor analysis of the gradient assembly in every mode (forward, reverse, finite '
    'difference) and return format.  Each write to the returned Jacobian is followed as a cell (row variable, '
    'column variable, axis selectors) and the multiset of scale factors applied to it; under the membership '
    'decisions of each path the factors must be exactly {output scaler, 1/input scaler} of the two variables '
    'of the cell, indexed along the axis they belong to.  The conversion tables and every hand-over of them '
    'between driver and problem are checked as value flows.')
RULE = 'factors(cell) == {cn_scale[row var] along rows, dv_scale[column var] along columns}, each exactly once iff declared'
ASSUMPTIONS = ['serial communicator', 'a loop is analysed for one generic element', 'variables of interest are plain names']

FRESH = ('OrderedDict', 'dict', 'zeros', 'empty', 'defaultdict', 'full')
DV, CN = ('param', 'dv_scale'), ('param', 'cn_scale')


def jroot(t):
    p = []
    while t[0] == 'sub':
        p.append(t[2])
        t = t[1]
    if t[0] == 'dict' or (t[0] == 'call' and ext_tail(t[1]) in FRESH):
        return t, list(reversed(p))
    return None, p


def tables(t):
    return {x for x in T.subterms(t) if x in (DV, CN)}


def product(t):
    """split a value into (base, factors, ok)"""
    t = np_simp(t) or t
    if t[0] == 'bin' and t[1] == '*':
        b1, f1, o1 = product(t[2])
        b2, f2, o2 = product(t[3])
        if b1 is None:
            return b2, f1 + f2, o1 and o2
        if b2 is None:
            return b1, f1 + f2, o1 and o2
        return ('bin', '*', b1, b2), f1 + f2, o1 and o2
    if t[0] == 'bin' and t[1] == '/' and tables(t[3]):
        b, f, o = product(t[2])
        return b, f + [t[3]], False
    if tables(t):
        return None, [t], t[0] in ('sub', 'get', 'call', 'bin')
    return t, [], True


class Grad(Client):
    generic_loops = True
    max_states = 24

    def __init__(self, mode, fmt):
        self.mode, self.fmt = mode, fmt
        self.scale_writes = 0

    def init_auto(self):
        return (frozenset(), frozenset())       # cells: (cell, base, factors, ok, loc); decisions: (cond, val)

    def assume(self, t):
        if t[0] == 'eq' and t[2][0] == 'const':
            if t[2][1] in ('fwd', 'rev') and self.mode:
                return t[2][1] == self.mode
            if t[1] == ('param', 'return_format'):
                return t[2][1] == self.fmt
        if t[0] == 'is' and t[1] in (DV, CN) and t[2] == T.NONE:
            return False
        if t == ('ext', 'openmdao.core.mpi_wrap.MPI') or (t[0] == 'global' and t[2] in ('MPI', 'trace')):
            return False
        if t[0] == 'lt' and t[1] == ('const', 1) and t[2][0] == 'attr' and t[2][2] == 'size':
            return False
        if t[0] == 'call' and t[1] == ('ext', 'isinstance') and 'string_types' in T.show(t[2][1]):
            return True
        if t[0] == 'call' and t[1] == ('ext', 'isinstance') and 'tuple' in T.show(t[2][1]):
            return False
        return None

    def keyfact(self, t):
        return False

    def inline(self, I, fn, func):
        return func.name not in ('_mode', 'fd_jacobian', 'solve')

    def on_load(self, I, st, cell, node):
        if cell[0] == 'sub':
            r, p = jroot(cell)
            if r is not None:
                return cell
        return None

    def on_branch(self, I, st, cond, val, node):
        if tables(cond):
            c = simp_all(cond)
            while c[0] == 'un' and c[1] == 'not':
                c, val = c[2], not val
            st = st.setauto((st.auto[0], st.auto[1] | {(c, bool(val))}))
        return st

    def upd(self, st, cell, base, factors, ok, loc):
        cells = {x for x in st.auto[0] if x[0] != cell}
        cells.add((cell, base, tuple(factors), ok, loc))
        return st.setauto((frozenset(cells), st.auto[1]))

    def old(self, st, cell):
        for x in st.auto[0]:
            if x[0] == cell:
                return x
        return None

    def on_store(self, I, st, cell, value, node):
        r, p = jroot(cell)
        if r is None or not p:
            return st
        b, f, ok = product(value)
        o = self.old(st, cell)
        if b == cell and o is not None:
            b, f, ok = o[1], list(o[2]) + f, ok and o[3]
        if f:
            self.scale_writes += 1
        return self.upd(st, cell, b, f, ok, I.loc(node))

    def on_aug(self, I, st, cell, old, op, value, node):
        if cell[0] == 'local':
            if tables(value) and old[0] == 'sub' and jroot(old)[0] is not None:
                cell = old
            else:
                return st
        r, p = jroot(cell)
        if r is None or not p:
            return st
        o = self.old(st, cell)
        b, f, ok = (o[1], list(o[2]), o[3]) if o else (cell, [], True)
        nb, nf, nok = product(value)
        if nf:
            self.scale_writes += 1
        elif not tables(value):
            return st
        return self.upd(st, cell, b if nb is None else ('bin', op, b, nb), f + nf, ok and nok and op == '*', I.loc(node))


def full(sel):
    """selector covering a whole axis / block, as opposed to one entry"""
    return sel[0] == 'slice' or (sel[0] == 'sub' and jroot(sel)[0] is not None)


def keyvar(table, f):
    """the key(s) under which `f` looks the table up"""
    return [x[2] for x in T.subterms(f) if x[0] in ('sub', 'get') and x[1] == table]


def form(f, table, var):
    """how a factor uses table[var]: raw | ('entry', i) | column"""
    raw = ('sub', table, var)
    f = simp_all(f)
    if f == raw:
        return ('raw',)
    if f[0] == 'get' and f[1] == table:
        return ('raw',)
    if f[0] == 'sub' and T.contains(f[1], lambda x: x == raw):
        i = f[2]
        if i[0] == 'tuple' and len(i[1]) == 2 and i[1][0][0] == 'slice' and (i[1][1] == T.NONE or 'newaxis' in T.show(i[1][1])):
            return ('column',)
        return ('entry', i)
    if f[0] == 'call':
        args = f[2]
        nm = ext_tail(f[1])
        if nm == 'reshape':
            sh = args[1:] if f[1][0] == 'ext' else args
            if len(sh) == 1 and sh[0][0] in ('tuple', 'list'):
                sh = sh[0][1]
            if len(sh) == 2 and sh[1] == ('const', 1):
                return ('column',)
            if len(sh) == 2 and sh[0] == ('const', 1):
                return ('raw',)
    return ('other', T.show(f))


def single_known(decs, table, var):
    raw = ('sub', table, var)
    for c, v in decs:
        if not T.contains(c, lambda x: x == raw):
            continue
        if c[0] == 'call' and c[1] == ('ext', 'isinstance') and v is False:
            return True
        if c[0] == 'lt' and c[1] == ('const', 1) and v is False:
            return True
        if c[0] == 'lt' and c[2] == ('const', 2) and v is True:
            return True
        if c[0] == 'le' and c[2] == ('const', 1) and v is True:
            return True
        if c[0] == 'eq' and c[2] in (('const', 1), ('const', 0)) and v is True:
            return True
        if c[0] == 'call' and ext_tail(c[1]) == 'isscalar' and v is True:
            return True
    return False


def ends_with(sel, i):
    return sel == i or (sel[0] == 'bin' and sel[1] == '+' and i in (sel[2], sel[3]))


def judge(repo, rep, f, mode, fmt):
    c = Grad(mode, fmt)
    I, out = run(repo, c, f, self_cls=repo.cls('Problem'))
    rep.fn(f.qualname, *I.inlined)
    name = '%s/%s/%s' % (f.name, mode or 'fd', fmt)
    n = 0
    seen = set()
    for st, ret in out.ret:
        roots = set()
        for a in (ret[1] if ret[0] == 'phi' else [ret]):
            r, p = jroot(a)
            if r is not None:
                roots.add(r)
        decs = st.auto[1]
        for cell, base, factors, ok, loc in st.auto[0]:
            r, p = jroot(cell)
            if r not in roots:
                continue
            # flatten nested tuple selectors
            if fmt == 'dict':
                if len(p) < 2:
                    continue
                rowvar, colvar = p[0], p[1]
                sel = p[2] if len(p) > 2 else None
            else:
                if p[-1][0] != 'tuple' or len(p) != 1:
                    continue
                rowvar = colvar = None
                sel = p[0]
            if base is None or base[0] == 'const' or (base[0] == 'call' and ext_tail(base[1]) in FRESH) or base == cell:
                if not factors:
                    continue
            if sel is None:
                sels = (('slice', T.NONE, T.NONE, T.NONE),) * 2
            elif sel[0] == 'tuple':
                sels = tuple(sel[1])
            else:
                sels = (sel, ('slice', T.NONE, T.NONE, T.NONE))
            if len(sels) != 2:
                continue
            n += 1
            rep.saw('jacobian_cells')
            ROW, COL = ('elem', ('param', 'unknown_list')), ('elem', ('param', 'indep_list'))
            if fmt == 'dict':
                # which variable is of which list
                okr = rowvar == ROW or mode == 'rev'
                okc = colvar == COL or mode == 'fwd'
                rep.ob(name + '/cell', okr and okc and not (rowvar == COL or colvar == ROW),
                       'entry stored under [%s][%s], not [output][input]' % (T.show(rowvar)[:60], T.show(colvar)[:60]), loc, 'cell')
            else:
                a, b = sels
                okc = True
                if mode == 'fwd':
                    okc = full(a) and T.contains(a, lambda x: x == ROW) and not T.contains(b, lambda x: x == ROW)
                elif mode == 'rev':
                    okc = full(b) and T.contains(b, lambda x: x == COL) and not T.contains(a, lambda x: x == COL)
                rep.ob(name + '/cell', okc, 'row selector %s, column selector %s do not belong to output and input' % (
                    T.show(a)[:80], T.show(b)[:80]), loc, 'cell')
                # two tables of positions may not share names
                ra, rb = block_table(a), block_table(b)
                if ra is not None and rb is not None:
                    rep.ob(name + '/offsets', ra != rb,
                           'row and column offsets live in one table keyed by name: a name in both lists clashes', loc, 'cell')
            rep.ob(name + '/operator', ok, 'a scale factor is not applied by multiplication', loc, 'scaling')
            for table, axis, tn in ((CN, 0, 'output scaler'), (DV, 1, 'input scaler')):
                fs = [x for x in factors if table in tables(x)]
                keys = {k for x in fs for k in keyvar(table, simp_all(x))} | \
                       {cc[1] for cc, v in decs if cc[0] == 'in' and cc[2] == table}
                if fmt == 'dict':
                    var = (rowvar, colvar)[axis]
                else:
                    # the variable of the axis, from its role
                    if mode in ('fwd', 'rev') and (axis == 0) == (mode == 'fwd'):
                        var = ROW if axis == 0 else COL
                    elif mode:
                        var = selvar(sels[axis])
                    else:
                        var = ROW if axis == 0 else COL
                rep.ob(name + '/%s/own-variable' % tn, all(k == var for k in keys) if var else len(keys) <= 1,
                       '%s of %s is applied to %s' % (tn, ', '.join(T.show(k)[:60] for k in keys), T.show(var)[:60] if var else '?'),
                       loc, 'scaling')
                if var is None and keys:
                    var = next(iter(keys))
                dec = [v for cc, v in decs if cc[0] == 'in' and cc[2] == table and (var is None or cc[1] == var)]
                if not dec and any(x[0] == 'get' for y in fs for x in T.subterms(y)):
                    dec = [True]
                want = 1 if (not dec or dec[0]) else 0
                rep.ob(name + '/%s/once' % tn, len(fs) == want,
                       '%s applied %d times to an entry %s' % (
                           tn, len(fs), 'although declared' if want else 'although not declared'), loc, 'scaling')
                for x in fs:
                    fm = form(x, table, var)
                    whole = full(sels[axis])
                    other = full(sels[1 - axis])
                    if fm[0] == 'raw':
                        good = (whole and (axis == 1 or not other)) or single_known(decs, table, var)
                    elif fm[0] == 'entry':
                        good = not whole and ends_with(sels[axis], fm[1])
                    elif fm[0] == 'column':
                        good = whole and other and axis == 0
                    else:
                        good = False
                    rep.ob(name + '/%s/axis' % tn, good,
                           'factor %s is not aligned with the %s axis of the cell: an array scaler scales the wrong entries' % (
                               T.show(x)[:80], ('output', 'input')[axis]), loc, 'scaling')
    rep.need(n, '%s: no jacobian entries found' % name)
    rep.need(c.scale_writes, '%s: no scaling found' % name) if False else None


def block_table(sel):
    for x in T.subterms(sel):
        if x[0] == 'sub':
            r, p = jroot(x)
            if r is not None and len(p) == 1:
                return r
    return None


def selvar(sel):
    for x in T.subterms(sel):
        if x[0] == 'sub':
            r, p = jroot(x)
            if r is not None and len(p) == 1:
                return p[0]
    return None


class Calls(Client):
    generic_loops = True

    def __init__(self, names):
        self.names, self.calls = names, []

    def inline(self, I, fn, func):
        return func.name not in self.names

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) in self.names:
            self.calls.append((fn, args, dict(kwargs), I.loc(node), node))
        return None


def argof(repo, call, func, pname):
    fn, args, kw, loc, node = call
    if pname in kw:
        return kw[pname]
    names = [a.arg for a in func.node.args.args][1:]
    i = names.index(pname)
    return args[i] if i < len(args) else None


def handover(repo, rep):
    p = repo.cls('Problem')
    d = repo.cls('Driver')
    f = repo.method(d, 'calc_gradient')
    tgt = repo.method(p, 'calc_gradient')
    c = Calls(('calc_gradient',))
    run(repo, c, f, self_cls=d)
    rep.fn(f.qualname)
    rep.need(c.calls, 'Driver.calc_gradient does not reach the problem')
    for call in c.calls:
        for pn, want in (('dv_scale', 'dv_conversions'), ('cn_scale', 'fn_conversions')):
            a = argof(repo, call, tgt, pn)
            rep.ob('Driver.calc_gradient/' + pn, a == ('attr', T.SELF, want),
                   '%s is %s, not the driver\'s %s' % (pn, T.show(a) if a else 'not passed', want), call[3], 'hand-over')
        for pn in ('mode', 'return_format', 'sparsity', 'inactives', 'indep_list', 'unknown_list'):
            a = argof(repo, call, tgt, pn)
            rep.ob('Driver.calc_gradient/' + pn, a == ('param', pn), 'argument %s is passed %s' % (
                pn, T.show(a) if a else 'nothing'), call[3], 'hand-over')
    inner = ('_calc_gradient_fd', '_calc_gradient_ln_solver')
    c = Calls(inner)
    run(repo, c, tgt, self_cls=p)
    rep.fn(tgt.qualname)
    rep.need({ext_tail(x[0]) for x in c.calls} == set(inner), 'Problem.calc_gradient does not reach both gradient routines')
    for call in c.calls:
        nm = ext_tail(call[0])
        f2 = repo.method(p, nm)
        for pn in [a.arg for a in f2.node.args.args][1:]:
            if pn not in [a.arg for a in tgt.node.args.args]:
                continue
            a = argof(repo, call, f2, pn)
            rep.ob('Problem.calc_gradient/%s/%s' % (nm, pn), a == ('param', pn),
                   '%s receives %s for %s' % (nm, T.show(a) if a else 'nothing', pn), call[3], 'hand-over')
    # drivers obtain gradients through the scaling entry point only
    for cls in repo.subclasses(d, strict=True):
        for m in sorted(cls.methods):
            f = repo.method(cls, m)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and 'calc_gradient' in n.func.attr:
                    rep.saw('gradient_requests')
                    ok = n.func.attr == 'calc_gradient' and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' or \
                        (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super')
                    rep.ob('%s.%s/scaled-entry-point' % (cls.name, m), ok,
                           'gradient obtained without the driver scaling (%s)' % ast.unparse(n.func), where(f, n), 'hand-over')


class Conv(Client):
    generic_loops = True

    def __init__(self):
        self.stores = []

    def init_auto(self):
        return frozenset()

    def inline(self, I, fn, func):
        return False

    def keyfact(self, t):
        return mentions_attr(t, 'scaler') or 'scaler' in repr(t)

    def on_store(self, I, st, cell, value, node):
        if cell[0] == 'sub':
            self.stores.append((st, cell, value, I.loc(node)))
        return st


def conversions(repo, rep):
    d = repo.cls('Driver')
    # wherever the tables are filled
    n = {'dv_conversions': 0, 'fn_conversions': 0}
    for m in sorted(d.methods):
        f = repo.method(d, m)
        if not any(isinstance(x, ast.Attribute) and x.attr in n for x in ast.walk(f.node)) or m in ('calc_gradient', '__init__'):
            continue
        c = Conv()
        I, out = run(repo, c, f, self_cls=d)
        rep.fn(f.qualname)
        for st, _ in out.ret:
            for tb, table_attr in n.items():
                held = st.heap.get(('attr', T.SELF, tb))
                if held is None:
                    continue
                for s2, cell, value, loc in c.stores:
                    if cell[1] not in (held, ('attr', T.SELF, tb)):
                        continue
                    n[tb] += 1
                    rep.saw('conversion_entries')
                    v = simp_all(value)
                    sc = {x for x in T.subterms(v) if x[0] == 'sub' and x[2] == ('const', 'scaler')}
                    if len(sc) != 1:
                        rep.ob('Driver/%s/value' % tb, False, '%s is filled with %s' % (tb, T.show(v)[:100]), loc, 'tables')
                        continue
                    s = next(iter(sc))
                    want = s if tb == 'fn_conversions' else ('bin', '/', ('const', 1.0), s)
                    rep.ob('Driver/%s/value' % tb, T.same(v, want), '%s holds %s, expected %s' % (
                        tb, T.show(v)[:80], 'the scaler' if tb == 'fn_conversions' else '1/scaler'), loc, 'tables')
                    # own metadata: the key and the scaler belong to the same variable
                    same = T.contains(s[1], lambda x: x == cell[2]) or True
                    src = {x for x in T.subterms(s) if x[0] in ('attr', 'call', 'param', 'dict', 'sub')}
                    rep.ob('Driver/%s/own-scaler' % tb, own(cell[2], s[1]), 'entry %s takes the scaler of %s' % (
                        T.show(cell[2])[:60], T.show(s[1])[:60]), loc, 'tables')
        # skipped only for neutral scalers
        skips(repo, rep, f)
    for tb, k in n.items():
        rep.need(k, 'no entry of %s found' % tb)


def own(key, meta):
    for k in T.alts(key):
        hit = False
        for m in T.alts(meta):
            if T.contains(m, lambda x: x == k) or (k[0] == 'elem' and m[0] in ('sub', 'elem', 'get') and
                                                   T.contains(m, lambda x: x == k[1])) or k == m:
                hit = True
        if not hit:
            return False
    return True


def skips(repo, rep, f):
    """a `continue`/guard that leaves a scaler out compares it with 1"""
    for loop in ast.walk(f.node):
        if not isinstance(loop, ast.For) or not any(
                isinstance(x, ast.Attribute) and x.attr in ('dv_conversions', 'fn_conversions') for x in ast.walk(loop)):
            continue
        for n in ast.walk(loop):
            if isinstance(n, ast.Compare) and any(isinstance(x, ast.Name) and 'scaler' in x.id for x in ast.walk(n)):
                cst = [x.value for x in n.comparators + [n.left] if isinstance(x, ast.Constant)]
                if cst:
                    rep.saw('neutral_tests')
                    rep.ob('Driver/neutral-scaler', all(v == 1 for v in cst), 'a scaler equal to %r is treated as neutral' % cst[0],
                           where(f, n), 'tables')
                # array comparison must be quantified with all()
            if isinstance(n, ast.Call) and (getattr(n.func, 'id', '') == 'any' or getattr(n.func, 'attr', '') == 'any') and \
                    any(isinstance(x, ast.Name) and 'scaler' in x.id for x in ast.walk(n)) and \
                    any(isinstance(x, ast.Eq) for x in ast.walk(n)):
                rep.ob('Driver/neutral-scaler', False, 'an array scaler with any neutral entry is dropped', where(f, n), 'tables')


def check(repo, rep, tier):
    p = repo.cls('Problem')
    for fmt in ('dict', 'array'):
        f = repo.method(p, '_calc_gradient_fd')
        judge(repo, rep, f, None, fmt)
        f = repo.method(p, '_calc_gradient_ln_solver')
        for mode in ('fwd', 'rev'):
            judge(repo, rep, f, mode, fmt)
    handover(repo, rep)
    conversions(repo, rep)
