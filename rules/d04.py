"""D04: difference quotients divide by exactly the perturbation that was made."""
import ast
from sa import terms as T
from sa.events import Trace, traces
from sa.repo import AnalysisBroken
from sa.util import *

EXPLANATION = (
    'The approximation routines are interpreted over value numbers; on every path the perturbed entry, the model '
    'evaluations and every read and update of the result vector are collected in order and replayed symbolically with the '
    'model replaced by its expansion F(x+d) = F + D*d + E*d^2/2 around the unperturbed input.  The stored column must '
    'come out as D: exactly (any E) for central and complex step, exactly for linear models for one-sided forms, with '
    'the perturbation on the promised side.')
RULE = 'sum c_i F(x + d_i) == D with F(x+d) = F + D d + E d^2/2, for the stored column of every path'
ASSUMPTIONS = ['a loop is analysed for one generic input entry and output', 'the model is smooth at the point (only its '
               'expansion matters)', 'the result vector holds the base evaluation when the routine is entered (its callers '
               'linearize after running)']

RUN = ('_sys_solve_nonlinear', '_sys_apply_nonlinear', 'solve_nonlinear', 'apply_nonlinear')


def vec_of(t):
    """'vec' / 'imag_vec' when the term is (all of) a result vector or one variable of it"""
    while True:
        if t[0] == 'sub' and t[2] == ('slice', T.NONE, T.NONE, T.NONE):
            t = t[1]
        elif t[0] == 'attr' and t[2] in ('vec', 'imag_vec') and resvec(t[1]):
            return t[2]
        else:
            return None


def resvec(t):
    return t in (('param', 'unknowns'), ('param', 'resids'), ('attr', T.SELF, 'unknowns'), ('attr', T.SELF, 'resids'))


class Quot(Trace):
    max_states = 3000

    def __init__(self, **kw):
        super(Quot, self).__init__(**kw)
        self.n = 0

    def inplace(self, cell, old):
        return vec_of(old) is not None or vec_of(cell) is not None

    def on_load(self, I, st, cell, node):
        if cell[0] == 'sub' and cell[2][0] == 'tuple' and len(cell[2][1]) == 2 and cell[1][0] in ('dict', 'call', 'fresh') and not any(
                x[0] == 'slice' for x in cell[2][1]):
            return cell
        if cell[0] in ('sub', 'attr') and cell not in st.heap and T.contains(cell, lambda x: x[0] == 'phi') and T.contains(
                cell, lambda x: x[0] == 'attr' and x[2] in ('val', 'imag_val')):
            return cell      # keep a load through a merged base atomic
        return None

    def perturbed(self, st):
        out = []
        for c, v in st.heap.items():
            if c[0] == 'sub' and v != c and isinstance(v, tuple) and T.contains(c[1], lambda x: x[0] == 'attr' and x[2] in (
                    'val', 'imag_val')) and T.contains(v, lambda x: x == c):
                out.append((c, v))
        return tuple(out)

    def on_store(self, I, st, cell, value, node):
        if vec_of(cell):
            return self.ev(st, ('set', vec_of(cell), value, I.loc(node)), I.loc(node))
        if cell[0] == 'sub' and cell[2][0] == 'tuple' and any(x[0] == 'slice' for x in cell[2][1]) or column(cell):
            return self.ev(st, ('col', cell, value, I.loc(node)), I.loc(node))
        if cell[0] == 'sub' and cell[2][0] == 'tuple' and len(cell[2][1]) == 2 and cell[1][0] == 'sub':
            return self.ev(st, ('entry', cell, value, I.loc(node)), I.loc(node))
        if cell[0] == 'sub' and cell[1][0] in ('dict', 'call') and cell[2][0] == 'tuple' and len(cell[2][1]) == 2:
            return self.ev(st, ('alloc', cell, value, I.loc(node)), I.loc(node))
        return st

    def on_aug(self, I, st, cell, old, op, value, node):
        c = cell if vec_of(cell) else old
        if vec_of(c):
            return self.ev(st, ('aug', op, vec_of(c), value, I.loc(node)), I.loc(node))
        return st

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm in RUN:
            return [(self.ev(st, ('run', self.perturbed(st), fn, tuple(args), I.loc(node)), I.loc(node)), T.NONE)]
        src = fn[1] if nm == 'copy' and fn[0] == 'attr' and not args else args[0] if nm in ('array', 'copy') and args else None
        if src is not None and vec_of(src):
            self.n += 1
            r = ('fresh', ('snapshot', I.loc(node)))
            return [(self.ev(st, ('copy', r, vec_of(src), I.loc(node)), I.loc(node)), r)]
        return super(Quot, self).on_call(I, st, fn, args, kwargs, node)


def column(cell):
    return False


# ---------------------------------------------------------------- symbolic replay
class Sym(object):
    def __init__(self):
        import sympy
        self.sp = sympy
        self.F, self.D, self.E = sympy.symbols('F D E', real=True)
        self.base = {}
        self.store = {'vec': self.F, 'imag_vec': sympy.Integer(0)}
        self.snaps = {}

    def num(self, t, cells=()):
        """sympy value of a scalar term; unknown terms become real symbols (same term, same symbol)"""
        sp = self.sp
        if t[0] == 'const' and isinstance(t[1], complex):
            return sp.nsimplify(t[1].real) + sp.I*sp.nsimplify(t[1].imag)
        if t[0] == 'const' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return sp.nsimplify(t[1], rational=True)
        if t in self.snaps:
            return self.snaps[t]
        v = vec_of(t)
        if v:
            return self.store[v]
        if t[0] == 'bin' and t[1] in '+-*/' or t[0] == 'bin' and t[1] == '**':
            a, b = self.num(t[2], cells), self.num(t[3], cells)
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a*b, '/': lambda: a/b, '**': lambda: a**b}[t[1]]()
        if t[0] == 'un' and t[1] in '+-':
            return self.num(t[2], cells) if t[1] == '+' else -self.num(t[2], cells)
        if t[0] == 'call' and ext_tail(t[1]) in ('imag', 'real') and len(t[2]) == 1:
            return (sp.im if ext_tail(t[1]) == 'imag' else sp.re)(sp.expand(self.num(t[2][0], cells)))
        if t[0] == 'attr' and t[2] in ('imag', 'real'):
            return (sp.im if t[2] == 'imag' else sp.re)(sp.expand(self.num(t[1], cells)))
        if t[0] == 'call' and ext_tail(t[1]) in ('atleast_1d', 'asarray', 'array', 'flatten', 'ravel', 'complex', 'float') and (
                t[2] or t[1][0] == 'attr'):
            return self.num(t[2][0] if t[2] else t[1][1], cells)
        if t[0] == 'attr' and t[2] in ('flat', 'T'):
            return self.num(t[1], cells)
        if t[0] == 'fresh' and t in self.snaps:
            return self.snaps[t]
        k = t
        if k not in self.base:
            self.base[k] = sp.Symbol('s%d' % len(self.base), real=True)
        return self.base[k]

    def model(self, d):
        return self.F + self.D*d + self.E*d**2/2

    def zero(self, e):
        return self.sp.simplify(self.sp.expand(e)) == 0


def check(repo, rep, tier):
    fd(repo, rep)
    settings(repo, rep)
    complex_component(repo, rep)
    wrapper(repo, rep)
    execcomp(repo, rep)


def isform(facts, word):
    return any(k[0] == 'eq' and x and T.const(word) in k[1:3] for k, x in facts.items())


def fd(repo, rep):
    f = repo.method(repo.cls('System'), 'fd_jacobian')
    rep.need(f is not None, 'System.fd_jacobian not found')

    def keep(t):
        return t[0] == 'eq' or t[0] == 'in' and T.contains(t, lambda x: x == ('param', 'qoi_indices')) or t == ('param', 'qoi_indices')
    forms = {}
    ncol = 0
    for total in (False, True):
        c = Quot(keep=keep)
        c._assume = lambda t: False if mpi(t) or t[0] == 'is' and t[2] == T.NONE and t[1][0] == 'param' else None
        res, out, I = traces(repo, f, repo.cls('System'), client=c, env={
            'total_derivs': T.const(total), 'use_check': T.FALSE, 'option_overrides': T.NONE})
        rep.fn(f.qualname, *I.inlined)
        rep.saw('paths', len(res))
        for ev, facts, v, st in res:
            runs = [e for e in ev if e[0] == 'run']
            cols = [e for e in ev if e[0] == 'col' and not exchanged(e[2])]
            if not runs or not cols:
                continue
            cs = isform(facts, 'cs')
            form = 'complex' if cs else next((w for w in ('forward', 'backward', 'central') if isform(facts, w)), None)
            if form is None:
                continue
            ncol += 1
            key = 'System.fd_jacobian/%s/%s' % ('total' if total else 'partial', form)
            s = Sym()
            deltas = []
            cells = set()
            stored = None
            want_run = '_sys_solve_nonlinear' if total else '_sys_apply_nonlinear'
            for e in ev:
                if e[0] == 'run':
                    rep.ob(key + '/model', ext_tail(e[2]) == want_run, 'evaluates %s' % ext_tail(e[2]), e[4], 'quotient')
                    rep.ob(key + '/one-entry', len(e[1]) <= 1, '%d entries are perturbed at once' % len(e[1]), e[4], 'quotient')
                    d = s.sp.Integer(0)
                    for cell, val in e[1]:
                        imag = T.contains(cell[1], lambda x: x[0] == 'attr' and x[2] == 'imag_val')
                        dd = s.num(val) - s.num(cell)
                        d = d + (s.sp.I*dd if imag else dd)
                        cells.add(cell)
                    deltas.append(d)
                    r = s.model(d)
                    s.store['vec'], s.store['imag_vec'] = s.sp.re(s.sp.expand(r)), s.sp.im(s.sp.expand(r))
                elif e[0] == 'copy':
                    s.snaps[e[1]] = s.store[e[2]]
                elif e[0] == 'set':
                    s.store[e[1]] = s.num(e[2])
                elif e[0] == 'aug':
                    a, b = s.store[e[2]], s.num(e[3])
                    s.store[e[2]] = {'+': a + b, '-': a - b, '*': a*b, '/': a/b if b != 0 else s.sp.nan}.get(e[1], s.sp.nan)
                elif e[0] == 'col' and exchanged(e[2]):
                    pass
                elif e[0] == 'col':
                    stored = (e, s.store['vec'])
                    placement(rep, key, e, facts, cells)
                    res_src = e[2]
                    rep.ob(key + '/source', reads_result(res_src, total), 'the column is taken from %s' % T.show(res_src)[:100], e[3], 'quotient')
            identity(rep, key, ev, facts, cells)
            e, val = stored
            linear = val.subs(s.E, 0)
            rep.ob(key + '/quotient', s.zero(linear - s.D), 'the column evaluates to %s for a model with derivative D' % str(
                s.sp.simplify(linear))[:160], e[3], 'quotient')
            if form in ('central', 'complex'):
                rep.ob(key + '/second-order', s.zero(val - s.D), 'the second derivative does not cancel: %s' % str(s.sp.simplify(val))[:160], e[3], 'quotient')
            side = {sgn(s, d) for d in deltas}
            want = {'forward': {'+'}, 'backward': {'-'}, 'central': {'+', '-'}, 'complex': {'i'}}[form]
            rep.ob(key + '/side', side == want, 'perturbs on side %s' % ''.join(sorted(side)), e[3], 'quotient')
            rep.ob(key + '/base', s.zero(s.store['vec'] - s.F), 'the result vector does not hold the unperturbed result again for '
                   'the next entry', e[3], 'quotient')
            forms.setdefault(form, 0)
    for w in ('forward', 'backward', 'central', 'complex'):
        rep.need(w in forms, 'System.fd_jacobian: no path for form %r' % w)
    rep.saw('quotients', ncol)


def identity(rep, key, ev, facts, cells):
    """an output that is the perturbed input itself"""
    for e in ev:
        if e[0] != 'entry':
            continue
        row, col = e[1][2][1]
        names = e[1][1][2][1] if e[1][1][0] == 'sub' and e[1][1][2][0] == 'tuple' else None
        same = any(k[0] == 'eq' and x and names is not None and names[0] in k[1:3] for k, x in facts.items())
        rep.ob(key + '/identity', e[2] in (T.const(1.0), T.const(1)) and same, 'stores %s for an output that is %s the perturbed input' % (
            T.show(e[2]), '' if same else 'not known to be'), e[3], 'placement')
        for c in cells:
            ok = position(col) and bases(col) == bases(c[2]) and (bases(row) == bases(c[2]) or T.contains(row, lambda x: x == c[2]) and T.contains(
                row, lambda x: x == ('param', 'qoi_indices')))
            rep.ob(key + '/identity-entry', ok, 'the derivative of entry %s with respect to itself is stored at row %s, column %s' % tuple(
                T.show(x)[:50] for x in (c[2], row, col)), e[3], 'placement')


def exchanged(t):
    """a column computed by another process"""
    return T.contains(t, lambda x: x[0] == 'call' and ext_tail(x[1]) in ('allgather', 'gather', 'allreduce'))


def mpi(t):
    return t in (('global', 'MPI'),) or t[0] in ('ext', 'global') and str(t[-1]).split('.')[-1] == 'MPI'


def sgn(s, d):
    sp = s.sp
    d = sp.expand(d)
    if d == 0:
        return '0'
    if sp.im(d) != 0:
        return 'i' if sp.re(d) == 0 else '?'
    c = sp.Poly(d, *sorted(d.free_symbols, key=str)).coeffs() if d.free_symbols else [d]
    return '+' if all(x > 0 for x in c) else '-' if all(x < 0 for x in c) else '?'


def reads_result(t, total):
    root = ('param', 'unknowns') if total else ('param', 'resids')
    return T.contains(t, lambda x: x == root) and not T.contains(t, lambda x: x[0] == 'attr' and x[2] in ('imag_val',))


def bases(t):
    """the iterables whose position (or element) a loop variable is"""
    if t[0] == 'phi':
        return frozenset().union(*[bases(x) for x in t[1]])
    if t[0] in ('elem', 'idx'):
        out = set()
        for b in (t[1][1] if t[1][0] == 'phi' else [t[1]]):
            if b[0] == 'call' and ext_tail(b[1]) == 'range' and len(b[2]) == 1:
                b = ('upto', b[2][0])
                if b[1][0] == 'call' and b[1][1] == ('ext', 'len'):
                    b = b[1][2][0]
            out.add(b)
        return frozenset(out)
    return frozenset([t])


def position(t):
    """a loop counter (not an element of an index list)"""
    if t[0] == 'phi':
        return all(position(x) for x in t[1])
    return t[0] == 'idx'


def placement(rep, key, e, facts, cells):
    _, cell, val, loc = e
    row, col = cell[2][1][0], cell[2][1][-1]
    rep.ob(key + '/whole-column', row == ('slice', T.NONE, T.NONE, T.NONE), 'the column is stored in row %s' % T.show(row), loc, 'placement')
    names = cell[1][2] if cell[1][0] == 'sub' and cell[1][2][0] == 'tuple' else None
    rep.ob(key + '/block', names is not None and T.contains(val, lambda x: x == names[1][0]), 'the result of another output is stored in the '
           'block of %s' % (T.show(names) if names else T.show(cell[1])), loc, 'placement')
    for c in cells:
        idx = c[2]
        base = idx[1] if idx[0] == 'elem' else None
        ok = base is not None and col[0] == 'idx' and T.same(col[1], base) or base is not None and col == ('idx', base)
        ok = ok or bases(idx) == bases(col)
        ok = ok and position(col)
        rep.ob(key + '/column', ok, 'entry %s is stored in column %s' % (T.show(idx)[:60], T.show(col)[:60]), loc, 'placement')
        if names is not None:
            p = names[1][1]
            rep.ob(key + '/input', T.contains(c[1], lambda x: T.same(x, p)) or any(T.contains(x, lambda y: y == p) for x in T.subterms(c[1])),
                   'input %s is perturbed for the block of %s' % (T.show(c[1])[:60], T.show(p)[:40]), loc, 'placement')


# ---------------------------------------------------------------- where step and form come from
def levels(t, key):
    """[(level, key)] of the lookups behind a setting, most specific first; None when not a lookup of that setting"""
    out = []
    while True:
        if t[0] == 'get':
            d, k, t2 = t[1], t[2], t[3]
        elif t[0] == 'sub':
            d, k, t2 = t[1], t[2], None
        else:
            if t[0] != 'const':
                out.append(('?', T.show(t)[:40]))
            return out
        if T.contains(d, lambda x: x[0] == 'attr' and x[2] in ('_params_dict', '_init_params_dict')):
            lv = 'variable'
        elif d == ('param', 'option_overrides'):
            lv = 'caller'
        elif d[0] == 'attr' and d[2] == 'deriv_options':
            lv = 'system'
        else:
            lv = '?'
        out.append((lv, k[1] if k[0] == 'const' else '?'))
        if t2 is None:
            return out
        t = t2


def settings(repo, rep):
    for cn, mn, keys in (('System', 'fd_jacobian', ('step_size', 'step_calc', 'form', 'type')),
                         ('Component', 'complex_step_jacobian', ('step_size',))):
        f = repo.method(repo.cls(cn), mn)
        rep.need(f is not None, '%s.%s not found' % (cn, mn))
        for checking in (False, True):
            key = '%s.%s/%s' % (cn, mn, 'checking' if checking else 'deriving')
            c = Quot(keep=lambda t: t[0] == 'eq')
            c.calls = {'step_complex'}
            c._assume = lambda t: (False if mpi(t) or t[0] == 'is' and t[2] == T.NONE and t[1][0] == 'param' else
                                   True if t == ('param', 'option_overrides') else None)
            res, out, I = traces(repo, f, repo.cls(cn), client=c, env=dict({
                'total_derivs': T.FALSE, 'use_check': T.const(checking), 'poi_indices': T.NONE, 'qoi_indices': T.NONE},
                **({} if checking else {'option_overrides': T.NONE})))
            rep.saw('paths', len(res))
            found = {}
            for ev, facts, v, st in res:
                for k, x in facts.items():
                    if k[0] != 'eq':
                        continue
                    a, b = k[1:3]
                    if a[0] == 'const':
                        a, b = b, a
                    if b[0] != 'const' or a[0] not in ('get', 'sub'):
                        continue
                    nm = {'relative': 'step_calc', 'forward': 'form', 'backward': 'form', 'central': 'form', 'cs': 'type'}.get(b[1])
                    if nm:
                        found.setdefault(nm, {})[a] = f.qualname
                for e in ev:
                    vals = [w for _, w in e[1]] if e[0] == 'run' else list(e[3]) if e[0] == 'call' and e[1] == 'step_complex' else []
                    for w in vals:
                        for x in T.subterms(w):
                            if x[0] == 'get' and x[2][0] == 'const' and str(x[2][1]).endswith('step_size') and not inner(w, x):
                                found.setdefault('step_size', {})[x] = e[4] if e[0] == 'run' else e[5]
            for nm in keys:
                rep.need(nm in found, '%s: use of the setting %r not found' % (key, nm))
                want = [('variable', nm)] + ([('caller', 'check_' + nm), ('system', 'check_' + nm)] if checking else [('system', nm)])
                for t in sorted(found[nm], key=repr):
                    got = levels(t, nm)
                    rep.ob('%s/setting/%s' % (key, nm), got == want, '%s is looked up in the order %s' % (
                        nm, ', '.join('%s %s' % x for x in got)), where(f), 'setting')


def inner(w, x):
    """is x only a fallback of another lookup in w?"""
    return any(y is not x and y != x and y[0] == 'get' and T.contains(y[3], lambda z: z == x) for y in T.subterms(w))


# ---------------------------------------------------------------- complex step of a component
def complex_component(repo, rep):
    cls = repo.cls('Component')
    f = repo.method(cls, 'complex_step_jacobian')
    rep.need(f is not None, 'Component.complex_step_jacobian not found')
    key = 'Component.complex_step_jacobian'

    class CS(Quot):
        def on_call(self, I, st, fn, args, kwargs, node):
            nm = ext_tail(fn)
            if nm in ('step_complex', 'set_complex_var', 'flat'):
                r = ('call', fn, tuple(args), (), (I.loc(node), nm)) if nm == 'flat' else T.NONE
                return [(self.ev(st, (nm, fn, tuple(args), r, I.loc(node)), I.loc(node)), r)]
            return Quot.on_call(self, I, st, fn, args, kwargs, node)
    c = CS(keep=lambda t: t[0] in ('in', 'nonempty'))
    c._assume = lambda t: False if t[0] == 'is' and t[2] == T.NONE and t[1][0] == 'param' else None
    res, out, I = traces(repo, f, cls, client=c, env={'use_check': T.FALSE, 'option_overrides': T.NONE})
    rep.fn(f.qualname)
    rep.saw('paths', len(res))
    n = 0
    for ev, facts, v, st in res:
        cols = [e for e in ev if e[0] == 'col']
        if not cols:
            continue
        s = Sym()
        d = s.sp.Integer(0)
        cells, owner = set(), None
        for e in ev:
            if e[0] == 'step_complex':
                a = e[2]
                rep.ob(key + '/step-arguments', len(a) == 2, 'step_complex called with %d arguments' % len(a), e[4], 'quotient')
                d = d + s.sp.I*s.num(a[1])
                cells.add(('sub', ('attr', e[1][1], 'stepped'), a[0]))
                owner = e[1][1]
            elif e[0] == 'run':
                rep.ob(key + '/model', ext_tail(e[2]) == '_sys_apply_nonlinear' and owner is not None and any(T.same(x, owner) for x in e[3]) or
                       owner is None or owner[0] == 'phi' and all(x in e[3] for x in owner[1]),
                       'the model is not evaluated with the stepped vector', e[4], 'quotient')
                s.store['vec'] = s.model(d)
            elif e[0] == 'flat':
                s.snaps[e[3]] = s.store['vec']
            elif e[0] == 'col':
                n += 1
                val = s.num(e[2])
                rep.ob(key + '/quotient', s.zero(val - s.D), 'the column evaluates to %s for a model with derivative D' % str(s.sp.simplify(val))[:160],
                       e[3], 'quotient')
                row, col = e[1][2][1][0], e[1][2][1][-1]
                rep.ob(key + '/whole-column', row == ('slice', T.NONE, T.NONE, T.NONE), 'the column is stored in row %s' % T.show(row), e[3], 'placement')
                for cl in cells:
                    rep.ob(key + '/column', bases(cl[2]) == bases(col), 'entry %s is stored in column %s' % (T.show(cl[2])[:60], T.show(col)[:60]),
                           e[3], 'placement')
                names = e[1][1][2][1] if e[1][1][0] == 'sub' and e[1][1][2][0] == 'tuple' else None
                rep.ob(key + '/stepped-back', s.zero(sum((s.sp.I*s.num(x[2][1]) for x in ev if x[0] == 'step_complex' and len(x[2]) == 2), s.sp.Integer(0))),
                       'the entry is still stepped when the next one is', e[3], 'quotient')
                fl = [x for x in ev if x[0] == 'flat' and T.contains(e[2], lambda y, x=x: y == x[3])]
                sv = [x for x in ev if x[0] == 'set_complex_var' and x[2] and x[2][0] != T.NONE]
                rep.ob(key + '/block', names is not None and len(fl) == 1 and fl[0][2][0] == names[0] and len(sv) == 1 and sv[0][2][0] == names[1],
                       'the result is stored in the block of %s' % (T.show(e[1][1])[:100]), e[3], 'placement')
    rep.need(n, key + ': no column found')


def wrapper(repo, rep):
    """step_complex adds i*step to its private copy, which reads of the stepped variable return"""
    for cn in ('ComplexStepTgtVecWrapper', 'ComplexStepSrcVecWrapper'):
        cls = repo.cls(cn)
        for mn in ('step_complex', '__getitem__'):
            f = repo.method(cls, mn)
            rep.need(f is not None, '%s.%s not found' % (cn, mn))
            rep.fn(f.qualname)
            res, out, I = traces(repo, f, cls)
            for ev, facts, v, st in res:
                if mn == 'step_complex':
                    s = Sym()
                    tot = None
                    for e in ev:
                        if e[0] == 'aug' and e[1] in '+-':
                            w = s.num(e[3])
                            tot = (tot or 0) + (w if e[1] == '+' else -w)
                            cell = e[2]
                        elif e[0] == 'set' and e[2][0] == 'bin':
                            tot = (tot or 0) + s.num(e[2]) - s.num(e[1])
                            cell = e[1]
                    ps = [('param', a.arg) for a in f.node.args.args[1:3]]
                    ok = tot is not None and s.zero(tot - s.sp.I*s.num(ps[1])) and cell[0] == 'sub' and cell[2] == ps[0] and mentions_attr(cell, 'step_val')
                    rep.ob('%s.step_complex/step' % cn, ok, 'the stepped entry changes by %s' % (tot,), where(f), 'quotient')
                else:
                    stepped = [x for k, x in facts.items() if k[0] == 'eq' and mentions_attr(k, 'step_var')]
                    if stepped == [True]:
                        rep.ob('%s.__getitem__/stepped' % cn, mentions_attr(v, 'step_val'), 'reading the stepped variable returns %s' % T.show(v), where(f), 'quotient')
                    elif stepped == [False]:
                        rep.ob('%s.__getitem__/other' % cn, not mentions_attr(v, 'step_val'), 'reading another variable returns the stepped one', where(f), 'quotient')


# ---------------------------------------------------------------- ExecComp
def execcomp(repo, rep):
    cls = repo.cls('ExecComp')
    f = repo.method(cls, 'linearize')
    rep.need(f is not None, 'ExecComp.linearize not found')
    key = 'ExecComp.linearize'

    class EC(Quot):
        def perturbed(self, st):
            w = [(c, v) for c, v in st.heap.items() if c[0] == 'sub' and v != c and wrapped(c, 'params')]
            held = [v for c, v in w]
            return tuple(w + [(c, v) for c, v in st.heap.items() if c[0] == 'sub' and v != c and c[1] in held])

        def inline(self, I, fn, func):
            return Quot.inline(self, I, fn, func) and func.cls is not None and func.cls.name == 'ExecComp'

        def on_store(self, I, st, cell, value, node):
            if cell[0] == 'sub' and wrapped(cell, 'params'):
                return self.ev(st, ('init', cell, value), I.loc(node))
            return Quot.on_store(self, I, st, cell, value, node)
    c = EC(keep=lambda t: t[0] in ('is', 'nonempty') or t[0] == 'call')
    res, out, I = traces(repo, f, cls, client=c)
    rep.fn(f.qualname)
    rep.saw('paths', len(res))
    seen = set()
    for ev, facts, v, st in res:
        cols = [e for e in ev if e[0] == 'col']
        runs = [e for e in ev if e[0] == 'run']
        if not cols or len(runs) != 1:
            continue
        s = Sym()
        init = {}
        for e in ev:
            if e[0] == 'init':
                init.setdefault(e[1], e[2])
        d = s.sp.Integer(0)
        entry = None
        for cell, val in runs[0][1]:
            base = init.get(cell, cell)
            dd = s.sp.expand(s.num(val) - s.num(base))
            if dd != 0:
                d, entry = d + dd, cell
        seen.add('array' if entry is not None and entry[1][0] == 'call' and ext_tail(entry[1][1]) in ('asarray', 'array') else 'scalar')
        rep.ob(key + '/model', [wrapped(('sub', a, T.NONE), n) for a, n in zip(runs[0][3], ('params', 'unknowns'))] == [True, True],
               'the expressions are not evaluated with the stepped values', runs[0][4], 'quotient')
        for e in cols:
            outs = [x for x in T.subterms(e[2]) if x[0] == 'sub' and wrapped(x, 'unknowns')]
            for x in outs:
                s.snaps[x] = s.model(d)
            val = s.num(e[2])
            rep.ob(key + '/quotient', s.zero(val - s.D), 'the column evaluates to %s for a model with derivative D' % str(s.sp.simplify(val))[:160],
                   e[3], 'quotient')
            row, col = e[1][2][1][0], e[1][2][1][-1]
            rep.ob(key + '/whole-column', row == ('slice', T.NONE, T.NONE, T.NONE), 'stored in row %s' % T.show(row), e[3], 'placement')
            names = e[1][1][2][1] if e[1][1][0] == 'sub' and e[1][1][2][0] == 'tuple' else None
            rep.ob(key + '/block', names is not None and len(outs) >= 1 and all(x[2] == names[0] for x in outs) and any(
                c2[2] == names[1] for c2, _ in runs[0][1]), 'stored in the block of %s' % T.show(e[1][1])[:100], e[3], 'placement')
            if entry is not None and entry[2] != (names or [0, 0])[1]:
                rep.ob(key + '/column', bases(entry[2]) == bases(col), 'entry %s is stored in column %s' % (T.show(entry[2])[:60], T.show(col)[:60]),
                       e[3], 'placement')
    rep.need('scalar' in seen, key + ': no column found')


def wrapped(cell, name):
    """an item of a _TmpDict around the named argument (or an item of such an item)"""
    b = cell[1]
    return T.contains(b, lambda x: x[0] == 'call' and x[1][0] == 'class' and ('param', name) in x[2])
