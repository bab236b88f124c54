"""L01: forward and reverse linear operations are adjoint (mirror) images."""
from sa import terms as T
from sa.events import Trace, traces
from sa.repo import AnalysisBroken
from sa.util import *

EXPLANATION = (
    'Every routine of the linear-derivative machinery is interpreted once with the direction fixed to forward and once '
    'to reverse; the ordered reads, writes and calls on the perturbation vectors (roles: unknowns u, residuals r, '
    'params p) are collected along every path.  Products must be accumulated, with the operator in forward mode and its '
    'transpose, with operand and target exchanged, in reverse; unit conversion, residual scaling, identity terms and '
    'data transfers must occur in the exactly reversed order; right-hand side and solution roles must be exchanged; '
    'subsystems are traversed in opposite order.')
RULE = 'events(rev) = transpose-reversed events(fwd); every contribution accumulates, every target is zeroed first'
ASSUMPTIONS = ['user-written apply_linear methods are outside (only those shipped with the package are analysed)',
               'numpy dot/T/outer have their mathematical meaning; PETSc scatters honour their addv and mode flags']

ROLES = {'dumat': 'u', 'dunknowns': 'u', 'drmat': 'r', 'dresids': 'r', 'dpmat': 'p', 'dparams': 'p',
         'unknowns': 'U', 'params': 'P', 'resids': 'R', 'rhs_mat': 'b'}
LIN = ('apply_linear', '_apply_linear_jac', '_scale_derivatives', '_apply_unit_derivatives', '_transfer_data',
       'solve_linear', '_sys_apply_linear', 'solve', 'clear_dparams', '_norm', 'reverse')
QUIET = ('print_norm', 'is_active', 'subsystems', 'components', '_get_gs_outputs', 'debug')


def role(t):
    if not isinstance(t, tuple) or not t:
        return None
    k = t[0]
    if k == 'attr':
        return ROLES.get(t[2]) or role(t[1])
    if k == 'param':
        return ROLES.get(t[1])
    if k in ('sub', 'elem', 'idx', 'get'):
        return role(t[1])
    if k == 'mu':
        return role(t[2]) if isinstance(t[2], tuple) else None
    if k == 'call':
        if t[1][0] == 'attr':
            return role(t[1][1])
        return role(t[2][0]) if t[2] and t[1][0] == 'ext' and ext_tail(t[1]) not in ('OrderedDict', 'zeros') else None
    if k == 'phi':
        rs = {role(x) for x in t[1]}
        return rs.pop() if len(rs) == 1 else None
    return None


def roles(t):
    """roles of all perturbation vectors read by a value (index positions excluded)"""
    if not isinstance(t, tuple) or not t:
        return set()
    r = role(t)
    if r is not None:
        return {r}
    out = set()
    if t[0] in ('sub', 'attr', 'elem', 'get'):
        return roles(t[1])
    for x in t[1:]:
        if isinstance(x, (tuple, frozenset)):
            for y in ([x] if isinstance(x, tuple) and x and isinstance(x[0], str) else x):
                out |= roles(y)
    return out


def in_place(cell, old):
    return role(old) in ('u', 'r', 'p') and (cell[0] == 'local' or cell[0] == 'attr' and cell[2] in ('vec', 'val', 'imag_vec'))


def is_zero(t):
    return t[0] == 'const' and t[1] is not None and not isinstance(t[1], (str, bool)) and t[1] == 0


def strip(t):
    while True:
        if t[0] == 'attr' and t[2] in ('flat',):
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('reshape', 'flatten', 'ravel', 'copy'):
            t = t[1][1]
        elif t[0] == 'sub' and t[2] == ('slice', T.NONE, T.NONE, T.NONE):
            t = t[1]
        else:
            return t


def untrans(t):
    """(matrix, transposed?)"""
    t = strip(t)
    if t[0] == 'attr' and t[2] == 'T':
        m, x = untrans(t[1])
        return m, not x
    if t[0] == 'call' and ext_tail(t[1]) == 'transpose':
        m, x = untrans(t[1][1] if t[1][0] == 'attr' and t[1][1][0] != 'ext' else t[2][0])
        return m, not x
    return t, False


def product(t):
    """(matrix, transposed?, vector) of a matrix-vector product, or (None, False, vector) for an identity"""
    t = strip(t)
    a = b = None
    if t[0] == 'call':
        nm = ext_tail(t[1])
        if nm == 'dot' and t[1][0] == 'attr' and len(t[2]) == 1:
            a, b = t[1][1], t[2][0]
        elif nm in ('dot', 'matmul') and len(t[2]) == 2:
            a, b = t[2]
    elif t[0] == 'bin' and t[1] == '@':
        a, b = t[2], t[3]
    if a is None:
        return (None, False, strip(t))
    if role(strip(b)) in ('u', 'r', 'p') and role(strip(a)) not in ('u', 'r', 'p'):
        m, tr = untrans(a)
        return (m, tr, strip(b))
    m, tr = untrans(b)
    return (m, not tr, strip(a))


def neg(t):
    """(sign, term)"""
    s = 1
    while t[0] == 'un' and t[1] == '-':
        s, t = -s, t[2]
    if t[0] == 'bin' and t[1] == '*' and t[3][0] == 'const' and t[3][1] in (-1, -1.0):
        return -s, t[2]
    if t[0] == 'bin' and t[1] == '*' and t[2][0] == 'const' and t[2][1] in (-1, -1.0):
        return -s, t[3]
    return s, t


def cell_is(cell, *names):
    return cell[0] == 'attr' and cell[2] in names


def canon(events):
    """role-level events: zero, put, acc(sign), scale, unit, apply, jac, xfer, solve, child, clear, store"""
    out = []
    for e in events:
        if e[0] == 'iter':
            out.append(('iter', None, e[1], e[2]))
        elif e[0] == 'set':
            _, cell, v, loc = e
            r = role(cell)
            if cell == ('attr', T.SELF, 'rel_inputs'):
                out.append(('relset', None, v, loc))
                continue
            if cell[0] == 'attr' and cell[2] in ('rel_inputs', '_rel_inputs', 'iter_count', 'mode', 'system', 'voi', 'rhs_cache'):
                continue
            if r is None:
                out.append(('store', cell, v, loc))
            elif is_zero(v):
                out.append(('zero', r, None, loc))
            elif v[0] == 'bin' and v[1] in '+-' and T.same(strip(v[2]), strip(cell)):
                s, w = neg(v[3])
                out.append(('acc', r, (s if v[1] == '+' else -s, cell, w), loc))
            else:
                out.append(('put', r, (cell, v), loc))
        elif e[0] == 'aug':
            _, op, cell, v, loc = e
            r = role(cell)
            if r is None:
                continue
            if op == '*' and is_zero(v):
                out.append(('zero', r, None, loc))
            elif op == '*' and v[0] == 'const' and v[1] in (-1, -1.0):
                out.append(('flip', r, None, loc))
            elif op in '+-':
                s, w = neg(v)
                out.append(('acc', r, (s if op == '+' else -s, cell, w), loc))
            else:
                out.append(('other', r, e, loc))
        else:
            _, nm, fn, args, kw, loc = e
            base = fn[1] if fn[0] == 'attr' else None
            if nm in ('_scale_derivatives', '_apply_unit_derivatives'):
                out.append(('scale' if nm == '_scale_derivatives' else 'unit', role(base) if base else None, dict(kw), loc))
            else:
                out.append((nm, role(base) if base else None, (fn, args, dict(kw)), loc))
    return out


def pick(ev, kind, r=None):
    return [i for i, e in enumerate(ev) if e[0] == kind and (r is None or e[1] == r)]


class Ck(object):
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep

    def method(self, cn, mn):
        cls = self.repo.cls(cn)
        f = self.repo.method(cls, mn)
        if f is None:
            raise AnalysisBroken('%s.%s not found' % (cn, mn))
        return cls, f

    def run(self, cls, f, mode, calls=LIN, byattr=False, assume=None, stop=(), keep=None, self_cls=True, iters=False):
        env, heap = {}, {}
        if 'mode' in [a.arg for a in f.node.args.args]:
            env['mode'] = T.const(mode)
        heap[('attr', T.SELF, 'mode')] = T.const(mode)
        res, out, I = traces(self.repo, f, cls, env=env, heap=heap, calls=calls, stop=tuple(stop) + QUIET, assume=assume, keep=keep, iters=iters, inplace=in_place)
        self.rep.fn(f.qualname, *I.inlined)
        self.rep.saw('paths', len(res))
        return [(canon(ev), facts, v, st) for ev, facts, v, st in res]


def check(repo, rep, tier):
    ck = Ck(repo, rep)
    for fn in (jac_product, sys_apply, group_apply, solve_linears, shipped_apply, krylov, gauss_seidel, transfers, partials, assembled, direct):
        fn(ck)


# ---------------------------------------------------------------- products
def jac_product(ck):
    for cls, f in overriding(ck.repo, 'System', '_apply_linear_jac'):
        key = '%s._apply_linear_jac' % cls.name
        got = {}
        for mode in ('fwd', 'rev'):
            got[mode] = set()
            for ev, facts, v, st in ck.run(cls, f, mode):
                looped = [k for k, x in facts.items() if k[0] == 'nonempty' and mentions_attr(k, '_jacobian_cache')]
                if any(facts[k] is False for k in looped):
                    continue
                acc = [e for e in ev if e[0] == 'acc']
                for e in ev:
                    ck.rep.ob(key + '/accumulates/' + mode, e[0] == 'acc', 'a product is %s instead of added to what other '
                              'entries contributed' % {'put': 'assigned', 'zero': 'zeroed', 'flip': 'negated'}.get(e[0], e[0]), e[3], 'product')
                state = next((x for k, x in facts.items() if k[0] == 'in' and mentions_states(k[2])), None)
                skip = tuple(sorted((T.show(k), x) for k, x in facts.items() if mentions_attr(k, 'rel_inputs')))
                if not acc:
                    got[mode].add(('skipped', state, skip))
                    continue
                ck.rep.ob(key + '/once/' + mode, len(acc) == 1, 'one entry contributes %d times' % len(acc), acc[0][3], 'product')
                s, cell, w = acc[0][2]
                m, tr, x = product(w)
                trole, xrole = role(cell), role(x)
                want = ('r', 'u' if state else 'p') if mode == 'fwd' else ('u' if state else 'p', 'r')
                ck.rep.ob(key + '/roles/' + mode, (trole, xrole) == want, 'adds to %s a product with %s; expected %s and %s' % (
                    trole, xrole, want[0], want[1]), acc[0][3], 'product')
                ck.rep.ob(key + '/state/' + mode, state is not None, 'it is not decided whether the input is a state', acc[0][3], 'product')
                ck.rep.ob(key + '/transpose/' + mode, m is not None and tr == (mode == 'rev'), 'uses the %s operator' % (
                    'identity' if m is None else 'transposed' if tr else 'untransposed'), acc[0][3], 'product')
                ck.rep.ob(key + '/sign/' + mode, s == 1, 'the product is subtracted', acc[0][3], 'product')
                kt, kx = key_of(cell), key_of(x)
                if mode == 'rev':
                    kt, kx = kx, kt
                got[mode].add(('acc', state, skip, kt, kx, T.show(m) if m else None))
        ck.rep.ob(key + '/mirror', got['fwd'] == got['rev'], 'forward and reverse handle different entries: %s' % str(
            sorted(map(str, got['fwd'] ^ got['rev'])))[:200], where(f), 'product')
        ck.rep.need(any(x[0] == 'acc' for x in got['fwd']), key + ': no product found')


def mentions_states(t):
    return mentions_attr(t, 'states') or T.contains(t, lambda x: x[0] == 'attr' and x[2] == '_jacobian_cache')


def key_of(t):
    """the name by which an entry of a vector is selected"""
    t = strip(t)
    if t[0] == 'call' and t[2]:
        return T.show(t[2][0])
    if t[0] == 'sub':
        return T.show(t[2])
    return T.show(t)


def overriding(repo, base, name):
    """(class, method) for the base class and every subclass that defines the method itself"""
    out = []
    b = repo.cls(base)
    for c in [b] + [c for c in repo.all_classes() if b in repo.mro(c) and c is not b]:
        if name in c.methods:
            out.append((c, repo.method(c, name)))
    return out


# ---------------------------------------------------------------- one system
def sys_apply(ck):
    for cls, f in overriding(ck.repo, 'System', '_sys_apply_linear'):
        if ck.repo.cls('Group') in ck.repo.mro(cls):
            continue
        if cls.name == 'IndepVarComp':
            identity_only(ck, cls, f)
            continue
        key = '%s._sys_apply_linear' % cls.name
        for mode in ('fwd', 'rev'):
            tgt, src = ('r', 'u') if mode == 'fwd' else ('u', 'r')
            kinds = set()
            for ev, facts, v, st in ck.run(cls, f, mode):
                ap, jc = pick(ev, 'apply_linear'), pick(ev, '_apply_linear_jac')
                ids = [i for i, e in enumerate(ev) if e[0] == 'acc']
                loc = where(f)

                def ob(k, ok, msg):
                    ck.rep.ob('%s/%s/%s' % (key, mode, k), ok, msg, loc, 'adjoint-order')
                rel = next((x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'is_relevant_system'), None)
                if rel is None:
                    ob('relevance', not moves(ev), 'acts on a variable of interest without knowing that the system is relevant for it')
                    continue
                if rel is False:
                    ob('irrelevant', not moves(ev), 'an irrelevant system changes vectors')
                    continue
                do = [x for k, x in facts.items() if T.contains(k, lambda y: y == ('param', 'do_apply'))]
                ob('applies', bool(ap or jc) == any(do), 'the product is %s although the system %s' % (
                    'skipped' if not (ap or jc) else 'applied', 'must be applied' if any(do) else 'must not be'))
                ob('once', len(ap) + len(jc) <= 1, 'the product is applied twice')
                for i in ap + jc:
                    fn, args, kw = ev[i][2]
                    ob('arguments', [role(a) for a in args[:5]] == ['P', 'U', 'p', 'u', 'r'] and args[5] == T.const(mode),
                       'vectors are passed in the wrong roles: %s' % ', '.join(T.show(a) for a in args))
                    ob('dispatch', (ev[i][0] == 'apply_linear') == any(
                        x for k, x in facts.items() if k[0] == 'eq' and T.contains(k, lambda y: y == T.const('user'))),
                       'finite-differenced systems must use their computed Jacobian, others their own product')
                m = (ap + jc)[0] if ap or jc else None
                zt = pick(ev, 'zero', tgt)
                ob('zero', len(zt) >= 1 and (m is None or zt[0] < m) and all(zt[0] < i for i in ids),
                   'the target vector is not zeroed before contributions are added')
                ob('zero-once', all(m is None or z < m for z in zt) and all(z < i for z in zt for i in ids), 'the target is zeroed after a contribution')
                if mode == 'rev':
                    zp = pick(ev, 'zero', 'p')
                    empty = any(k[0] == 'nonempty' and x is False and role(k[1]) == 'p' for k, x in facts.items())
                    ob('zero-params', empty or len(zp) == 1 and (m is None or zp[0] < m),
                       'the input perturbations are not zeroed before contributions are added')
                else:
                    ob('keeps-params', not pick(ev, 'zero', 'p') and not pick(ev, 'zero', 'u'), 'the perturbations to be propagated are zeroed')
                un, su, sr = pick(ev, 'unit'), pick(ev, 'scale', 'u'), pick(ev, 'scale', 'r')
                ob('unit-roles', all(ev[i][1] == 'p' for i in un) and all(ev[i][1] in 'ur' for i in su + sr + pick(ev, 'scale')),
                   'units or scaling applied to the wrong vector')
                for i in un:
                    ob('unit-scope', T.contains(dict(ev[i][2]).get('rel_inputs', T.NONE), lambda y: y == ('param', 'rel_inputs')),
                       'unit conversion is applied to inputs that take no part in the product')
                for i in ap + jc:
                    rs = [e for e in ev[:i] if e[0] == 'relset']
                    ob('relevant-inputs', rs and T.contains(rs[-1][2], lambda y: y == ('param', 'rel_inputs')),
                       'the product is made with %s instead of the given relevant inputs' % (T.show(rs[-1][2])[:60] if rs else 'those of an earlier call'))
                if ap:
                    before, after = (un + su, sr) if mode == 'fwd' else (sr, un + su)
                    ob('unit-once', len(un) == 1, 'unit conversion is applied %d times' % len(un))
                    ob('scale-once', len(su) == 1 and len(sr) == 1, 'scaling is applied %d/%d times' % (len(su), len(sr)))
                    ob('order', all(i < m for i in before) and all(i > m for i in after),
                       'unit conversion and scaling must come %s' % (
                           'before the product on inputs and after it on residuals' if mode == 'fwd' else
                           'after the product on inputs and before it on residuals'))
                else:
                    ob('no-scaling', not (un or su or sr), 'units or scaling applied without a product in the component\'s own units')
                for i in ids:
                    s, cell, w = ev[i][2]
                    ob('identity', role(cell) == tgt and roles(w) == {src} and s == -1,
                       'the identity term adds %s%s to %s' % ('' if s > 0 else '-', T.show(w), T.show(cell)))
                    if mode == 'fwd':
                        ob('identity-order', (m is None or i > m) and all(i > j for j in sr), 'the identity term must come after the product and its scaling')
                    else:
                        ob('identity-order', (m is None or i < m) and all(i < j for j in sr), 'the identity term must come before the product and its scaling')
                    kc = entry_key(cell)
                    ob('identity-entry', kc is None or same_entry(kc, w), 'the identity term pairs %s with %s' % (T.show(cell), T.show(w)))
                lp = [x for k, x in facts.items() if k[0] == 'nonempty' and role(k[1]) == src]
                stt = next((x for k, x in facts.items() if k[0] == 'in' and mentions_attr(k[2], 'states')), None)
                gn = next((x for k, x in facts.items() if k[0] == 'is' and T.contains(k, lambda y: y == ('sub', ('param', 'gs_outputs'), y[2] if len(y) > 2 else 0))), None)
                g0 = facts.get(('is', ('param', 'gs_outputs'), T.NONE))
                gi = next((x for k, x in facts.items() if k[0] == 'in' and T.contains(k[2], lambda y: y == ('param', 'gs_outputs'))), None)
                limited_out = gi is False
                if any(lp):
                    want = stt is False and not limited_out
                    if ids:
                        ob('identity-filter', stt is False and (gi is True or g0 is True or gn is True),
                           'the identity term is applied to states or to outputs outside the requested ones')
                    else:
                        ob('identity-missing', not (stt is not True and not limited_out), 'the identity term is missing')
                kinds.add('user' if ap else 'fd' if jc else 'none')
            ck.rep.ob('%s/%s/covers' % (key, mode), kinds == {'user', 'fd', 'none'}, 'dispatch has only %s' % sorted(kinds), where(f), 'adjoint-order')


def moves(ev):
    return [e for e in ev if e[0] != 'relset']


def entry_key(cell):
    for x in T.subterms(cell):
        if x[0] == 'sub' and x[1][0] == 'attr' and x[1][2] == '_dat':
            return x[2]
    if cell[0] == 'sub' and cell[2][0] not in ('slice',):
        return cell[2]
    return None


def same_entry(k, w):
    """does value w belong to the entry selected by k? (same loop element, or the same key)"""
    if T.contains(w, lambda x: x == k):
        return True
    base = k[1] if k[0] in ('sub', 'idx') else k
    return T.contains(w, lambda x: x == base)


def identity_only(ck, cls, f):
    key = '%s._sys_apply_linear' % cls.name
    for mode in ('fwd', 'rev'):
        tgt, src = ('r', 'u') if mode == 'fwd' else ('u', 'r')
        n = 0
        for ev, facts, v, st in ck.run(cls, f, mode):
            if any(k == ('nonempty', ('param', 'vois')) and x is False for k, x in facts.items()):
                continue
            n += 1
            z = pick(ev, 'zero', tgt)
            ids = pick(ev, 'acc')
            ck.rep.ob('%s/%s/zero' % (key, mode), len(z) == 1 and all(z[0] < i for i in ids), 'the target vector is not zeroed before '
                      'the identity term is subtracted', where(f), 'adjoint-order')
            for i in ids:
                s, cell, w = ev[i][2]
                ck.rep.ob('%s/%s/identity' % (key, mode), s == -1 and role(cell) == tgt and roles(w) == {src} and
                          key_of_entry(cell) == key_of_entry(w),
                          'subtracts %s from %s' % (T.show(w), T.show(cell)), ev[i][3], 'adjoint-order')
            other = [e for e in ev if e[0] not in ('zero', 'acc')]
            ck.rep.ob('%s/%s/only' % (key, mode), not other, 'also does %s' % [e[0] for e in other], where(f), 'adjoint-order')
            gi = next((x for k, x in facts.items() if k[0] == 'in' and T.contains(k[2], lambda y: y == ('param', 'gs_outputs'))), None)
            empty = any(k[0] == 'nonempty' and x is False for k, x in facts.items())
            ck.rep.ob('%s/%s/filter' % (key, mode), empty or bool(ids) == (gi is not False), 'the identity term is %s' % (
                'missing' if not ids else 'applied outside the requested outputs'), where(f), 'adjoint-order')
        ck.rep.need(n, key + ': no path')


def key_of_entry(t):
    t = strip(t)
    return T.show(t[2]) if t[0] == 'sub' else None


# ---------------------------------------------------------------- groups
def group_apply(ck):
    for cls, f in overriding(ck.repo, 'Group', '_sys_apply_linear'):
        key = '%s._sys_apply_linear' % cls.name
        for mode in ('fwd', 'rev'):
            n = 0
            for ev, facts, v, st in ck.run(cls, f, mode):
                if any(k[0] == 'nonempty' and x is False for k, x in facts.items()) or not ev:
                    continue
                n += 1
                x, c = pick(ev, '_transfer_data'), pick(ev, '_sys_apply_linear')

                def ob(k, ok, msg):
                    ck.rep.ob('%s/%s/%s' % (key, mode, k), ok, msg, where(f), 'transfer-order')
                ob('transfers', len(x) == 1, '%d derivative transfers' % len(x))
                ob('applies', len(c) == 1, 'the children are applied %d times' % len(c))
                if x and c:
                    ob('order', (x[0] < c[0]) == (mode == 'fwd'), 'the transfer must come %s the children' % (
                        'before' if mode == 'fwd' else 'after'))
                for i in x:
                    xfer_args(ck, key, mode, ev[i], None)
                for i in c:
                    fn, args, kw = ev[i][2]
                    a = list(args) + [kw[k] for k in ('vois', 'gs_outputs', 'rel_inputs') if k in kw]
                    ob('child-mode', args and args[0] == T.const(mode) or kw.get('mode') == T.const(mode), 'children are applied in the other direction')
                    ob('child-arguments', all(('param', p) in a for p in ('do_apply', 'vois', 'gs_outputs')),
                       'children do not get all variables of interest and restrictions')
            ck.rep.need(n, key + ': no path')


def xfer_args(ck, key, mode, e, target):
    fn, args, kw = e[2]
    loc = e[3]
    m = kw.get('mode', args[1] if len(args) > 1 else T.const('fwd'))
    d = kw.get('deriv', args[2] if len(args) > 2 else T.FALSE)
    voi = kw.get('var_of_interest', args[3] if len(args) > 3 else T.NONE)
    ck.rep.ob('%s/%s/transfer-mode' % (key, mode), m == T.const(mode), 'data is transferred in direction %s' % T.show(m), loc, 'transfer')
    ck.rep.ob('%s/%s/transfer-deriv' % (key, mode), d == T.TRUE, 'values are transferred instead of derivatives', loc, 'transfer')
    ck.rep.ob('%s/%s/transfer-voi' % (key, mode), voi[0] == 'elem', 'the transfer is made for %s, not for each variable of interest' % T.show(voi), loc, 'transfer')
    if target is not None:
        t = kw.get('target_sys', args[0] if args else T.const(''))
        ck.rep.ob('%s/%s/transfer-target' % (key, mode), T.contains(t, lambda y: y == target), 'the transfer is made for %s' % T.show(t), loc, 'transfer')


def solve_linears(ck):
    for cls, f in overriding(ck.repo, 'System', 'solve_linear'):
        key = '%s.solve_linear' % cls.name
        shapes = {}
        for mode in ('fwd', 'rev'):
            sol, rhs = ('u', 'r') if mode == 'fwd' else ('r', 'u')
            names = {sol: 'sol', rhs: 'rhs'}
            shapes[mode] = set()
            n = 0
            for ev, facts, v, st in ck.run(cls, f, mode):
                shape = []
                for e in ev:
                    def ob(k, ok, msg):
                        ck.rep.ob('%s/%s/%s' % (key, mode, k), ok, msg, e[3], 'roles')
                    if e[0] in ('put', 'zero', 'acc', 'flip'):
                        n += 1
                        ob('target', e[1] == sol, 'the right-hand side is overwritten')
                        val = e[2][-1] if e[2] else None
                        if e[0] == 'put':
                            ob('value', roles(val) <= {rhs}, 'the solution is computed from %s' % T.show(val))
                            s, w = neg(val)
                            shape.append(('put', s, T.contains(val, lambda x: x[0] == 'call' and ext_tail(x[1]) in ('solve', 'lu_solve'))))
                            for x in T.subterms(val):
                                if x[0] == 'call' and ext_tail(x[1]) == 'lu_solve':
                                    tr = dict(x[3]).get('trans', x[2][2] if len(x[2]) > 2 else T.const(0))
                                    ob('transpose', tr[0] == 'const' and bool(tr[1]) == (mode == 'rev'), 'solves with the %s matrix' % (
                                        'transposed' if tr[0] == 'const' and tr[1] else 'untransposed'))
                        else:
                            shape.append((e[0],))
                    elif e[0] == 'store':
                        if cls.name == 'Group' or ck.repo.cls('Group') in ck.repo.mro(cls):
                            ob('buffer-copy', not (e[2][0] == 'attr' and e[2][2] == 'vec' or e[2][0] == 'sub' and e[2][1][0] == 'attr' and e[2][1][2] == 'vec'),
                               'the solver is handed the live vector as right-hand side, which it changes while iterating')
                        ob('buffer', roles(e[2]) <= {rhs}, 'the right-hand side handed to the solver is taken from %s' % T.show(e[2]))
                    elif e[0] == 'solve':
                        fn, args, kw = e[2]
                        ob('solver-mode', kw.get('mode', args[2] if len(args) > 2 else None) == T.const(mode), 'the solver is run in another direction')
                        shape.append(('solve',))
                shapes[mode].add((tuple(shape)))
            ck.rep.need(n, key + ': no solution written')
        ck.rep.ob(key + '/mirror', shapes['fwd'] == shapes['rev'], 'forward and reverse solve differently', where(f), 'roles')


# ---------------------------------------------------------------- apply_linear methods of shipped components
def shipped_apply(ck):
    n = 0
    for cls, f in overriding(ck.repo, 'Component', 'apply_linear'):
        if cls.name == 'Component':
            continue
        n += 1
        key = '%s.apply_linear' % cls.name
        terms = {}
        for mode in ('fwd', 'rev'):
            terms[mode] = set()
            for ev, facts, v, st in ck.run(cls, f, mode):
                for e in ev:
                    ck.rep.ob('%s/%s/accumulates' % (key, mode), e[0] == 'acc', 'a contribution is not added to the target', e[3], 'adjoint')
                    if e[0] != 'acc':
                        continue
                    s, cell, w = e[2]
                    form = bilinear(mode, cell, w)
                    fact = any(k[0] == 'in' and x and (role(k[2]), T.show(k[1])) == form[1] for k, x in facts.items())
                    terms[mode].add((s,) + form + ('guarded' if fact else 'unguarded',))
        ck.rep.ob(key + '/adjoint', terms['fwd'] == terms['rev'], 'the reverse product is not the transpose of the forward one: %s' %
                  '; '.join('%s' % (x,) for x in sorted(terms['fwd'] ^ terms['rev'], key=str))[:300], where(f), 'adjoint')
        ck.rep.need(terms['fwd'], key + ': no product found')
    ck.rep.need(n, 'no shipped apply_linear found')


def bilinear(mode, cell, w):
    """normal form (residual entry, input entry, operator) of one contribution, direction removed"""
    w = strip(w)
    tgt = (role(cell), key_of(cell))
    # outer(a, b)(.T): adjoint of   dA.dot(x)
    m, tr = untrans(w)
    if m[0] == 'call' and ext_tail(m[1]) == 'outer' and len(m[2]) == 2:
        a, b = m[2]
        if tr:
            a, b = b, a
        # target dA accumulates outer(a, b): adjoint of r += dA.dot(b) with a the residual perturbation
        return (('r', key_of(a)) if role(a) == 'r' else ('?', T.show(a)), tgt, 'T ' + T.show(strip(b)))
    m, tr, x = product(w)
    vec = strip(x)
    if m is None:
        src = (role(vec), key_of(vec))
        return (tgt, src, 'I') if mode == 'fwd' else (src, tgt, 'I')
    if role(vec) in ('u', 'p', 'r') and role(m) not in ('u', 'p', 'r'):
        src = (role(vec), key_of(vec))
        if mode == 'rev':
            tr = not tr
            return (src, tgt, ('T ' if tr else '') + T.show(m))
        return (tgt, src, ('T ' if tr else '') + T.show(m))
    # dA.dot(x): the perturbation is the matrix; product() saw it as x^T dA^T
    pert, other = (m, vec)
    src = (role(pert), key_of(pert))
    if role(pert) in ('u', 'p') and mode == 'fwd' and tr:
        return (tgt, src, 'rightmul ' + T.show(other))
    return (tgt, src, 'other %s %s' % (tr, T.show(other)))


# ---------------------------------------------------------------- operators handed to Krylov solvers
def krylov(ck):
    todo = []
    for cn, mn, kind in (('MultLinearSolver', 'mult', 'mult'), ('PetscKSP', 'mult', 'mult'), ('ScipyGMRES', '_precon', 'precon'),
                         ('PetscKSP', 'apply', 'precon')):
        cls, f = ck.method(cn, mn)
        todo.append((cls, f, kind))
    for cls, f, kind in todo:
        key = '%s.%s' % (cls.name, f.name)
        for mode in ('fwd', 'rev'):
            sol, rhs = ('u', 'r') if mode == 'fwd' else ('r', 'u')
            inp, outp = (sol, rhs) if kind == 'mult' else (rhs, sol)
            for ev, facts, v, st in ck.run(cls, f, mode):
                if any(k[0] == 'is' and mentions_attr(k, 'preconditioner') and x for k, x in facts.items()):
                    continue

                def ob(k, ok, msg):
                    ck.rep.ob('%s/%s/%s' % (key, mode, k), ok, msg, where(f), 'roles')
                act = pick(ev, '_sys_apply_linear') + pick(ev, 'solve_linear')
                ob('acts', len(act) == 1, 'the operator is applied %d times' % len(act))
                if not act:
                    continue
                a = act[0]
                fn, args, kw = ev[a][2]
                puts = [i for i, e in enumerate(ev) if e[0] == 'put' and i < a]
                ob('input', len(puts) == 1 and ev[puts[0]][1] == inp and T.contains(ev[puts[0]][2][1], lambda x: x == ('param', 'arg')),
                   'the argument is not stored in the %s vector' % ('solution' if kind == 'mult' else 'right-hand side'))
                ob('clears', any(i < a for i in pick(ev, 'clear_dparams')), 'old input perturbations are not cleared')
                if kind == 'mult':
                    z = [i for i in pick(ev, 'zero', rhs) if i < a]
                    ob('zero', len(z) == 1, 'the result vector is not zeroed first')
                    ob('mode', args and args[0] == T.const(mode), 'the product is made in another direction')
                else:
                    ob('zero', not pick(ev, 'zero', rhs), 'the right-hand side is zeroed')
                    ob('mode', kw.get('mode') == T.const(mode), 'the preconditioner is applied in another direction')
                    ob('vectors', len(args) > 1 and dict_role(ev, args[0], st) == 'u' and dict_role(ev, args[1], st) == 'r',
                       'the vectors handed to the preconditioner have the wrong roles')
                res = [e for e in ev if e[0] == 'store' and T.contains(e[1], lambda x: x == ('param', 'result'))]
                val = res[-1][2] if res else v
                ob('result', roles(val) == {outp}, 'returns %s' % T.show(val))
                extra = [e for i, e in enumerate(ev) if e[0] in ('put', 'zero', 'acc', 'flip') and i > a]
                ob('untouched', not extra, 'the result is changed after the operator was applied')


def dict_role(ev, t, st):
    if role(t):
        return role(t)
    rs = {role(e[2]) for e in ev if e[0] == 'store' and e[1][0] == 'sub' and T.same(e[1][1], t)}
    # dictionaries created by separate calls of the same constructor are told apart by their uid
    rs2 = {role(e[2]) for e in ev if e[0] == 'store' and e[1][0] == 'sub' and e[1][1] == t}
    if t[0] == 'dict':
        rs2 |= {role(v) for _, v in t[1]}
    rs = rs2 or rs
    return rs.pop() if len(rs) == 1 else None


# ---------------------------------------------------------------- Gauss-Seidel
def gauss_seidel(ck):
    cls, f = ck.method('LinearGaussSeidel', 'solve')
    key = 'LinearGaussSeidel.solve'

    def keep(t):
        return t[0] == 'nonempty' or T.contains(t, lambda x: x[0] == 'attr' and x[2] == 'is_active') or (
            t[0] == 'call' and ext_tail(t[1]) == 'is_active')
    for mode in ('fwd', 'rev'):
        sol, rhs = ('u', 'r') if mode == 'fwd' else ('r', 'u')
        n = 0
        for ev, facts, v, st in ck.run(cls, f, mode, keep=keep, iters=True):
            if any(k[0] == 'nonempty' and x is False for k, x in facts.items()):
                continue
            s = pick(ev, 'solve_linear')
            loc = where(f)

            def ob(k, ok, msg):
                ck.rep.ob('%s/%s/%s' % (key, mode, k), ok, msg, loc, 'gauss-seidel')
            if not s:
                continue
            n += 1
            a, x = pick(ev, '_sys_apply_linear'), pick(ev, '_transfer_data')
            ob('once', len(s) == 1 and len(a) == 1 and len(x) == 1, 'per subsystem: %d transfers, %d products, %d solves' % (len(x), len(a), len(s)))
            if not (len(s) == 1 and len(a) == 1 and len(x) == 1):
                continue
            fn, args, kw = ev[s[0]][2]
            sub = fn[1]
            its = [e[2] for e in ev[:s[0]] if e[0] == 'iter' and mentions_attr(e[2], '_subsystems')]
            rv = bool(its) and backwards(its[-1])
            for e in ev[:s[0]]:
                if e[0] == 'reverse' and its and T.same(e[2][0][1], its[-1]):
                    rv = not rv
            ob('traversal', its and rv == (mode == 'rev'), 'subsystems are traversed in %s order' % ('reverse' if rv else 'execution'))
            ob('solve-roles', [role(z) for z in args[:2]] == ['u', 'r'] and kw.get('mode', args[3] if len(args) > 3 else None) == T.const(mode),
               'the subsystem is solved with the wrong vectors or direction')
            f2, a2, k2 = ev[a[0]][2]
            ob('apply-same', f2[1] == sub, 'the product is made for another subsystem')
            ob('apply-mode', a2 and a2[0] == T.const(mode), 'the product is made in another direction')
            g = k2.get('gs_outputs')
            ob('apply-scope', g is not None and T.contains(g, lambda y: y == T.const(mode)) and not T.contains(
                g, lambda y: y == T.const('rev' if mode == 'fwd' else 'fwd')), 'outputs are limited with the table of the other direction')
            xfer_args(ck, key, mode, ev[x[0]], sub)
            fl = [i for i in pick(ev, 'flip', rhs) if i < s[0]]
            ad = [i for i in pick(ev, 'acc', rhs) if i < s[0] and ev[i][2][0] == 1 and roles(ev[i][2][2]) == {'b'}]
            sb = [i for i, e in enumerate(ev) if e[0] == 'put' and e[1] == rhs and i < s[0] and residual_form(e, rhs)]
            ob('residual', len(fl) == 1 and len(ad) == 1 and fl[0] < ad[0] or len(sb) == 1 and not fl and not ad,
               'the right-hand side of the subsystem is not (given right-hand side - contributions of the others)')
            last = ad[0] if ad else sb[0] if sb else None
            if mode == 'fwd':
                ob('order', x[0] < a[0] < (fl or sb or [10**6])[0] and s[0] == max(x + a + s), 'must be: transfer, product, residual, solve')
                z = [i for i in pick(ev, 'zero', 'p') if a[0] < i < s[0]]
                ob('clear-inputs', len(z) == 1, 'input perturbations are not cleared between product and solve')
            else:
                lp = [i for i, e in enumerate(ev[:s[0]]) if e[0] == 'iter' and mentions_attr(e[2], '_subsystems')]
                z = [i for i in pick(ev, 'zero', 'u') if (lp or [0])[-1] < i < x[0]]
                ob('zero', z and not [e for i, e in enumerate(ev) if z[-1] < i < x[0] and e[0] in ('acc', 'put', 'flip')],
                   'the vector that accumulates the transfers is not zeroed right before')
                ob('order', x[0] < (fl or sb or [10**6])[0] and (last or 0) < s[0] < a[0], 'must be: transfer, residual, solve, product')
            late = [e for i, e in enumerate(ev) if e[1] == rhs and e[0] in ('flip', 'acc', 'put') and i > (last or 0) and i < s[0]]
            ob('residual-final', not late, 'the right-hand side is changed again before the solve')
            out = [e for e in ev if e[0] == 'store' and role(e[2]) in ('u', 'r') and e[2][0] != 'call']
            ob('solution', out and all(role(e[2]) == sol for e in out), 'the solution is taken from the %s vector' % (
                role(out[-1][2]) if out else None))
        ck.rep.need(n, key + ': no iteration found')
    cls, f = ck.method('LinearGaussSeidel', '_norm')
    for mode in ('fwd', 'rev'):
        rhs = 'r' if mode == 'fwd' else 'u'
        for ev, facts, v, st in ck.run(cls, f, mode):
            if any(k[0] == 'nonempty' and x is False for k, x in facts.items()):
                continue
            a = pick(ev, '_sys_apply_linear')
            d = pick(ev, 'acc')
            ok = len(a) == 1 and len(d) == 1 and a[0] < d[0] and ev[d[0]][1] == rhs and ev[d[0]][2][0] == -1 and roles(ev[d[0]][2][2]) == {'b'}
            ck.rep.ob('LinearGaussSeidel._norm/%s/residual' % mode, ok and roles(v) <= {rhs}, 'the linear residual must be the product '
                      'minus the right-hand side, in the vector of the right-hand side', where(f), 'gauss-seidel')
            if a:
                ck.rep.ob('LinearGaussSeidel._norm/%s/mode' % mode, ev[a[0]][2][1][0] == T.const(mode), 'other direction', where(f), 'gauss-seidel')


def backwards(it):
    n = 0
    for y in T.subterms(it):
        if y[0] == 'call' and ext_tail(y[1]) in ('reversed', 'flipud') or y[0] == 'slice' and y[3] in (T.const(-1), ('un', '-', T.const(1))):
            n += 1
    return n % 2 == 1


def residual_form(e, rhs):
    """rhs vector := given rhs - rhs vector"""
    cell, v = e[2]
    return v[0] == 'bin' and v[1] == '-' and roles(v[2]) == {'b'} and roles(v[3]) == {rhs}


# ---------------------------------------------------------------- data transfer
def transfers(ck):
    cls, f = ck.method('DataTransfer', 'transfer')
    src, tgt = ('param', 'srcvec'), ('param', 'tgtvec')

    def base(t):
        b = {x for x in T.subterms(t) if x in (src, tgt)}
        return b.pop() if len(b) == 1 else None

    def index(t):
        t = strip(t)
        return t[2] if t[0] == 'sub' else None

    def part(t):
        t = strip(t)
        return t[1][2] if t[0] == 'sub' and t[1][0] == 'attr' else None
    key = 'DataTransfer.transfer'
    pairs = {'fwd': set(), 'rev': set()}
    for mode in ('fwd', 'rev'):
        res, out, I = traces(ck.repo, f, cls, env={'mode': T.const(mode)}, calls=('at',))
        ck.rep.fn(f.qualname)
        for ev, facts, v, st in res:
            uq = next((x for k, x in facts.items() if T.contains(k, lambda y: y[0] == 'attr' and y[2] == 'scatters') and k[0] in ('sub', 'idx')), None)
            loop = next((x for k, x in facts.items() if k[0] == 'nonempty' and mentions_attr(k, 'scatters')), None)
            vec = []
            for e in ev:
                if e[0] == 'set' and part(e[1]) in ('vec', 'imag_vec'):
                    kind, c, w = 'set', e[1], e[2]
                    if w[0] == 'bin' and w[1] == '+' and T.same(strip(w[2]), strip(c)):
                        kind, w = 'add', w[3]
                    loc = e[3]
                elif e[0] == 'aug':
                    kind, c, w, loc = ('add' if e[1] == '+' else 'bad'), e[2], e[3], e[4]
                elif e[0] == 'call' and e[1] == 'at':
                    kind, loc = 'at', e[5]
                    ck.rep.ob(key + '/at', e[2][0] in ('ext', 'attr') and 'add' in T.show(e[2]) or T.contains(e[2], lambda y: y[0] == 'ext' and 'add' in y[1]),
                              'combines with something other than addition', loc, 'transfer')
                    c, w = ('sub', e[3][0], e[3][1]), e[3][2]
                else:
                    continue
                vec.append((kind, c, w, loc))
            for kind, c, w, loc in vec:
                def ob(k, ok, msg):
                    ck.rep.ob('%s/%s/%s' % (key, mode, k), ok, msg, loc, 'transfer')
                want = (tgt, src) if mode == 'fwd' else (src, tgt)
                ob('direction', (base(c), base(w)) == want, 'copies from %s to %s' % (T.show(base(w) or w), T.show(base(c) or c)))
                if mode == 'fwd':
                    ob('assigns', kind == 'set', 'forward transfers must assign')
                    pairs['fwd'].add((part(c), part(w), index(c), index(w)))
                else:
                    ob('accumulates', kind in ('add', 'at'), 'derivatives of several targets must be added up, not overwritten')
                    ob('duplicates', kind == 'at' or uq is True, 'source indices that occur more than once lose contributions '
                       'unless they are known to be unique')
                    pairs['rev'].add((part(w), part(c), index(w), index(c)))
            if loop:
                ck.rep.ob('%s/%s/moves' % (key, mode), any(part(c) == 'vec' or k == 'at' for k, c, w, _ in vec), 'nothing is transferred', where(f), 'transfer')
                cs = next((x for k, x in facts.items() if mentions_attr(k, 'in_complex_step')), None)
                if mode == 'fwd':
                    ck.rep.ob(key + '/fwd/imaginary', bool(cs) == any(part(c) == 'imag_vec' for k, c, w, _ in vec), 'imaginary parts are %s' % (
                        'not transferred in a complex step' if cs else 'transferred outside a complex step'), where(f), 'transfer')
            if mode == 'rev' or facts.get(('param', 'deriv')) is True:
                obj = [e for e in ev if e[0] == 'set' and part(e[1]) not in ('vec', 'imag_vec')]
                ck.rep.ob('%s/%s/objects' % (key, mode), not obj, 'pass-by-object values take part in a derivative transfer', where(f), 'transfer')
    f_idx = {(i, j) for p, q, i, j in pairs['fwd'] if p == q}
    r_idx = {(i, j) for p, q, i, j in pairs['rev'] if p == q or p is None or q is None}
    ck.rep.ob(key + '/mirror', f_idx == r_idx and len(f_idx) == 1 and all(p == q for p, q, _, _ in pairs['fwd']),
              'forward and reverse pair different index sets', where(f), 'transfer')
    uniqueness(ck)
    # PETSc version
    cls, f = ck.method('PetscDataTransfer', 'transfer')
    key = 'PetscDataTransfer.transfer'
    for mode in ('fwd', 'rev'):
        res, out, I = traces(ck.repo, f, cls, env={'mode': T.const(mode)}, calls=('scatter',),
                             assume=lambda t: False if t[0] in ('global', 'ext') and str(t[-1]).endswith('trace') else None,
                             keep=lambda t: mentions_attr(t, 'in_complex_step'))
        ck.rep.fn(f.qualname)
        for ev, facts, v, st in res:
            sc = [e for e in ev if e[0] == 'call']
            ck.rep.ob('%s/%s/scatters' % (key, mode), len(sc) in (1, 2), '%d scatters' % len(sc), where(f), 'transfer')
            for e in sc:
                kw = dict(e[4])
                args = list(e[3]) + [kw[k] for k in ('addv', 'mode') if k in kw]
                want = [src, tgt] if mode == 'fwd' else [tgt, src]
                ok = len(args) == 4 and [base(a) for a in args[:2]] == want and args[2:] == [T.const(mode == 'rev')] * 2
                ck.rep.ob('%s/%s/direction' % (key, mode), ok, 'scatters %s' % ', '.join(T.show(a) for a in args), e[5], 'transfer')
    # Group
    cls, f = ck.method('Group', '_transfer_data')
    for mode in ('fwd', 'rev'):
        for deriv in (True, False):
            res, out, I = traces(ck.repo, f, cls, env={'mode': T.const(mode), 'deriv': T.const(deriv)}, calls=('transfer',))
            ck.rep.fn(f.qualname)
            for ev, facts, v, st in res:
                for e in ev:
                    if e[0] != 'call':
                        continue
                    kw = dict(e[4])
                    names = ('srcvec', 'tgtvec', 'mode', 'deriv')
                    a = dict(zip(names, e[3]))
                    a.update(kw)
                    voi = ('param', 'var_of_interest')
                    want = [('sub', ('attr', T.SELF, 'dumat'), voi), ('sub', ('attr', T.SELF, 'dpmat'), voi)] if deriv else \
                        [('attr', T.SELF, 'unknowns'), ('attr', T.SELF, 'params')]
                    k = 'Group._transfer_data/%s/%s' % (mode, 'deriv' if deriv else 'value')
                    ck.rep.ob(k + '/vectors', [a.get('srcvec'), a.get('tgtvec')] == want, 'transfers between %s and %s' % (
                        T.show(a.get('srcvec')), T.show(a.get('tgtvec'))), e[5], 'transfer')
                    ck.rep.ob(k + '/mode', a.get('mode', T.const('fwd')) == T.const(mode) and a.get('deriv', T.FALSE) == T.const(deriv),
                              'the direction or the kind of data is not passed on', e[5], 'transfer')
                    ck.rep.ob(k + '/key', all(T.contains(e[2], lambda y, p=p: y == p) for p in (voi, ('param', 'target_sys'), T.const(mode))),
                              'the transfer is looked up with an incomplete key', e[5], 'transfer')
                got = [e for e in ev if e[0] == 'call']
                none = any(k[0] == 'is' and x for k, x in facts.items()) or any(k[0] == 'in' and x is False for k, x in facts.items()) or any(
                    k[0] in ('get', 'sub') and x is False for k, x in facts.items())
                ck.rep.ob('Group._transfer_data/%s/%s/done' % (mode, deriv), bool(got) != none, 'the transfer is skipped or repeated', where(f), 'transfer')


def uniqueness(ck):
    """the flag that permits += must be computed from the source indices, per scatter, unless they form a slice"""
    cls, f = ck.method('DataTransfer', '__init__')
    res, out, I = traces(ck.repo, f, cls, env={'mode': T.const('rev')}, calls=('append',), keep=lambda t: True)
    ck.rep.fn(f.qualname)
    n = 0
    for ev, facts, v, st in res:
        for e in ev:
            flag = None
            if e[0] == 'call' and e[1] == 'append' and e[3] and e[3][0][0] == 'tuple' and len(e[3][0][1]) == 3:
                srcs, tgts, flag = e[3][0][1]
                loc = e[5]
            elif e[0] == 'set' and e[2][0] == 'tuple' and len(e[2][1]) == 3:
                srcs, tgts, flag = e[2][1]
                loc = e[3]
            if flag is None:
                continue
            n += 1
            first = T.contains(srcs, lambda x: x[0] in ('idx', 'sub') and x[2] == T.const(0))
            sl = next((x for k, x in facts.items() if k[0] == 'call' and k[1] == ('ext', 'isinstance') and k[2] and T.same(k[2][0], srcs)), None)
            merged = srcs[0] == 'call' and ext_tail(srcs[1]) == 'slice'
            ok = T.contains(flag, lambda x: x[0] == 'call' and ext_tail(x[1]) == 'unique' and x[2] and T.same(x[2][0], srcs)) and \
                flag[0] == 'eq' or flag == T.TRUE and (sl is True or merged)
            ck.rep.ob('DataTransfer.__init__/unique', ok, 'source indices %s are treated as unique because of %s' % (T.show(srcs)[:60], T.show(flag)[:80]), loc, 'transfer')
    ck.rep.need(n, 'DataTransfer.__init__: scatters not found')


# ---------------------------------------------------------------- partial derivative check, assembled matrix
def partials(ck):
    """the identity columns sent through a component in both directions"""
    f = ck.repo.method(ck.repo.cls('Problem'), 'check_partial_derivatives')
    ck.rep.need(f is not None, 'Problem.check_partial_derivatives not found')
    found = {}
    import ast
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)):
            inner = [c for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'apply_linear']
            deeper = [m for m in ast.walk(n) if m is not n and isinstance(m, (ast.For, ast.While)) and
                      any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'apply_linear' for c in ast.walk(m))]
            if inner and not deeper:
                for c in inner:
                    mode = next((k.value for k in ast.walk(c) if isinstance(k, ast.Constant) and k.value in ('fwd', 'rev')), None)
                    found.setdefault(mode, []).append((n, c))
    for mode in ('fwd', 'rev'):
        key = 'check_partial_derivatives/%s' % mode
        if len(found.get(mode, ())) != 1:
            helper_partials(ck, f, mode)
            continue
        loop, call = found[mode][0]
        seq = flat_calls(loop.body)
        order = []
        for nm, base in seq:
            r = ROLES.get(base)
            if nm == 'apply_linear':
                order.append('apply')
            elif nm == '_scale_derivatives':
                order.append('scale ' + str(r))
            elif nm == '_apply_unit_derivatives':
                order.append('unit ' + str(r))
        a = order.index('apply')
        pre, post = set(order[:a]), set(order[a + 1:])
        want = ({'unit p', 'scale u'}, {'scale r'}) if mode == 'fwd' else ({'scale r'}, {'unit p', 'scale u'})
        ck.rep.ob(key + '/order', (pre, post) == want and len(order) == 4, 'unit conversion and scaling around the product: %s' % order,
                  where(f, call), 'adjoint-order')
        args = [ROLES.get(getattr(x, 'id', getattr(x, 'attr', None))) for x in call.args[:5]]
        ck.rep.ob(key + '/arguments', args == ['P', 'U', 'p', 'u', 'r'], 'vectors passed in roles %s' % args, where(f, call), 'adjoint-order')
        ck.rep.fn(f.qualname)


def helper_partials(ck, f, mode):
    raise AnalysisBroken('check_partial_derivatives: the %s product loop was not found' % mode)


def flat_calls(body):
    import ast
    out = []

    def visit(n):
        if isinstance(n, ast.Call):
            for x in list(n.args) + [k.value for k in n.keywords]:
                visit(x)
            if isinstance(n.func, ast.Attribute):
                b = n.func.value
                out.append((n.func.attr, getattr(b, 'id', getattr(b, 'attr', None))))
            return
        for x in ast.iter_child_nodes(n):
            visit(x)
    for s in body:
        visit(s)
    return out


def assembled(ck):
    cls, f = ck.method('Group', 'assemble_jacobian')
    key = 'Group.assemble_jacobian'
    form = {}
    for mode in ('fwd', 'rev'):
        form[mode] = set()
        res, out, I = traces(ck.repo, f, cls, env={'mode': T.const(mode), 'method': T.const('assemble')}, calls=('at',), stop=QUIET)
        ck.rep.fn(f.qualname)
        for ev, facts, v, st in res:
            for e in ev:
                cell = val = None
                if e[0] == 'call' and e[1] == 'at':
                    loc, cell, val = e[5], e[3][1], e[3][2]
                    ck.rep.ob(key + '/accumulates', T.contains(e[2], lambda y: y[0] == 'ext' and y[1].endswith('add') or y[0] == 'attr' and y[2] == 'add' or y[0]=='ext' and 'add.at' in y[1]),
                              'entries are combined by something other than addition', loc, 'assemble')
                    if cell[0] == 'call' and ext_tail(cell[1]) == 'ix_':
                        idx = cell[2]
                    elif cell[0] == 'tuple':
                        idx = cell[1]
                    else:
                        idx = None
                elif e[0] in ('aug', 'set') and mentions_attr(e[-2], '_jacobian_cache') and e[0] == 'aug':
                    loc, cell, val = e[4], e[2], e[3]
                    idx = cell[2][1] if cell[0] == 'sub' and cell[2][0] == 'tuple' else None
                elif e[0] == 'set' and e[2][0] != 'tuple' and role(e[1]) is None and e[1][0] == 'sub' and e[1][2][0] == 'tuple' and len(e[1][2][1]) == 2 and mentions_attr(e[2], '_jacobian_cache'):
                    ck.rep.ob(key + '/accumulates', False, 'an entry overwrites that of another input with the same source', e[3], 'assemble')
                    continue
                else:
                    continue
                m, tr = untrans(val)
                ck.rep.ob(key + '/transpose/' + mode, tr == (mode == 'rev'), 'the block is stored %s' % ('transposed' if tr else 'untransposed'), loc, 'assemble')
                if idx is not None and len(idx) == 2:
                    a, b = idx if mode == 'fwd' else idx[::-1]
                    form[mode].add((T.show(a), T.show(b), T.show(m)))
    ck.rep.need(form['fwd'], key + ': assembly not found')
    ck.rep.ob(key + '/mirror', form['fwd'] == form['rev'], 'forward and reverse place the blocks differently', where(f), 'assemble')


def direct(ck):
    """a factorization made for one direction is not used for the other"""
    cls, f = ck.method('DirectSolver', 'solve')
    key = 'DirectSolver.solve'
    for mode in ('fwd', 'rev'):
        res, out, I = traces(ck.repo, f, cls, env={'mode': ('param', 'mode')}, calls=('assemble_jacobian',), stop=QUIET)
        ck.rep.fn(f.qualname)
        for ev, facts, v, st in res:
            if any(k[0] == 'nonempty' and x is False for k, x in facts.items()):
                continue
            asm = [e for e in ev if e[0] == 'call']
            if asm:
                kw = dict(asm[0][4])
                ck.rep.ob(key + '/mode', kw.get('mode', asm[0][3][0] if asm[0][3] else None) == ('param', 'mode'), 'the matrix is built for another '
                          'direction', asm[0][5], 'assemble')
                sets = [i for i, e in enumerate(ev) if e[0] == 'set' and e[1] == ('attr', T.SELF, 'mode') and e[2] == ('param', 'mode')]
                none = facts.get(('is', ('attr', T.SELF, 'mode'), T.NONE))
                same = any(k[0] == 'eq' and set(k[1:3]) == {('attr', T.SELF, 'mode'), ('param', 'mode')} and x for k, x in facts.items())
                ck.rep.ob(key + '/operator-mode', bool(sets) or same, 'the operator used to build the matrix may still be set to the other direction',
                          asm[0][5], 'assemble')
            else:
                same = any(k[0] == 'eq' and set(k[1:3]) == {('attr', T.SELF, 'mode'), ('param', 'mode')} and x for k, x in facts.items())
                first = facts.get(('is', ('attr', T.SELF, 'mode'), T.NONE)) is True
                ck.rep.ob(key + '/reuse', same or first, 'the matrix of an earlier solve is reused without knowing that it was built for '
                          'this direction', where(f), 'assemble')
        break
