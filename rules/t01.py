"""T01: total derivatives: every requested entry is solved for once and placed where it belongs."""
import ast
from sa import terms as T
from sa.events import Trace, traces
from sa.slices import *
from sa.util import *

EXPLANATION = (
    'The assembly of total derivatives is analysed in three pieces (what is set up, the loop of solves, the finite difference '
    'version), each over every path for one generic variable and entry, in both directions and both return formats.  The '
    'right-hand side given to every solve is followed through its stores; every write to the returned table is compared with '
    'the entry the solve was made for and with the part of the solution that belongs to the row or column written; every path '
    'that writes nothing must have a reason.')
RULE = 'solve(rhs) has rhs zero but one entry -1 for the entry analysed; table[row(o), col(p)+i] := solution(p, i)[entries of o]'
ASSUMPTIONS = ['one process', 'a loop is analysed for one generic element', 'indices are looked up by the vector wrapper (other properties)']

ROOT = ('attr', T.SELF, 'root')
IND, UNK = ('param', 'indep_list'), ('param', 'unknown_list')
POI, QOI = ('attr', T.SELF, '_poi_indices'), ('attr', T.SELF, '_qoi_indices')
FULL = ('slice', T.NONE, T.NONE, T.NONE)
CELLS = lambda c: c[0] == 'sub'


class Fixed(Trace):
    """one process, one direction, one format, plain names"""
    max_states = 40000

    def __init__(self, mode, fmt, **kw):
        self.mode, self.fmt = mode, fmt
        Trace.__init__(self, **kw)
        self.havoc_containers = True

    def assume(self, t):
        if t[0] == 'global' and t[2] in ('MPI', 'trace') or t == ('ext', 'openmdao.core.mpi_wrap.MPI'):
            return False
        if t[0] == 'lt' and t[1] == T.const(1) and t[2][0] == 'attr' and t[2][2] == 'size':
            return False
        if t[0] == 'eq' and t[2][0] == 'const' and t[2][1] in ('fwd', 'rev') and self.mode:
            return t[2][1] == self.mode
        if t[0] == 'eq' and t[1] == ('param', 'return_format'):
            return self.fmt == t[2][1]
        if t[0] == 'is' and t[2] == T.NONE and t[1] in (('param', 'dv_scale'), ('param', 'cn_scale')):
            return True
        if t[0] == 'call' and t[1] == ('ext', 'isinstance') and len(t[2]) == 2:
            s = T.show(t[2][1])
            if 'string_types' in s or s in ('str',):
                return True
            if 'tuple' in s:
                return False
        if t[0] == 'eq' and t[2] == T.const(0) and t[1][0] == 'call' and t[1][1] == ('ext', 'len') and t[1][2][0][0] in ('list', 'tuple') and not t[1][2][0][1]:
            return True
        if t[0] == 'is' and t[2] == T.NONE and zeros_of(t[1]):
            return False
        if t[0] == 'in' and (T.show(t[2])[-5:] == 'scale' or t[2][0] == 'dict'):
            return False


def calls_of(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)


def is_prop(t, *path):
    p, b = attr_path(t)
    return p[-len(path):] == path


def fresh(t, *names):
    return t[0] == 'call' and ext_tail(t[1]) in names or t[0] == 'dict' and 'dict' in names


def vkey_of(t, vs):
    """the key the solution of a variable of the set is found under"""
    return t[0] == 'call' and ext_tail(t[1]) == '_get_voi_key' and len(t[2]) >= 2 and t[2][1] == vs


def chosen(facts, var, sel):
    """whether only some entries of a variable are wanted"""
    x = facts.get(('in', var, sel))
    if x is None:
        y = facts.get(('is', ('get', sel, var, T.NONE), T.NONE))
        x = None if y is None else not y
    return x


def zeros_of(v):
    if v[0] == 'call' and ext_tail(v[1]) == 'zeros' and v[2]:
        s = v[2][0]
        return s if s[0] == 'tuple' else ('tuple', (s,))


def prefix(loop, f):
    """the statements of the routine that come before the one the loop is (in)"""
    for k, s in enumerate(f.node.body):
        if any(x is loop for x in ast.walk(s)):
            return f.node.body[:k], s
    return None, None


def roles(repo, rep, P, f, g, loop, mode, fmt):
    """what the names the loop of solves starts from stand for: a list of bindings (one per way to get there)"""
    main = unit(g, loop)
    names = pn(main)
    if g.qualname == f.qualname:
        pre, stop = prefix(loop, f)
        wanted = names
        tail = [ast.Return(value=ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Load()) for x in names], ctx=ast.Load()))]
        conv = None
    else:
        site = [(s, n) for s in f.node.body for n in ast.walk(s) if isinstance(n, ast.Call) and calls_of(n) == g.name]
        rep.need(len(site) == 1, 'the loop of solves is reached from several places')
        pre = f.node.body[:f.node.body.index(site[0][0])]
        args = dict(zip(pn(g), site[0][1].args))
        args.update({k.arg: k.value for k in site[0][1].keywords})
        before, stop = prefix(loop, g)
        inner = before + [ast.Return(value=ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Load()) for x in names], ctx=ast.Load()))]
        wanted = list(args)
        tail = [ast.Return(value=ast.Tuple(elts=[args[x] for x in wanted], ctx=ast.Load()))]
        conv = inner
    for x in tail:
        ast.copy_location(x, loop)
        ast.fix_missing_locations(x)
    c = Fixed(mode, fmt, calls=('_mode', 'clear_dparams', '_sys_linearize', 'append', 'extend'), stop=('_get_voi_key',), cells=CELLS)
    res, out, I = traces(repo, unit(f, *(pre + tail)), P, client=c)
    got = {}
    for ev, facts, v, st in res:
        env = tuple(zip(wanted, v[1]))
        key = tuple((n, x) for n, x in env)
        got.setdefault(key, []).append((ev, facts, st))
    binds = []
    for env, runs in got.items():
        env = dict(env)
        if conv:
            for x in conv[-1:]:
                ast.copy_location(x, loop)
                ast.fix_missing_locations(x)
            r2, o2, I2 = traces(repo, unit(g, *conv), P, client=Fixed(mode, fmt, calls=('append', 'extend'), stop=('_get_voi_key',), cells=CELLS), env=env)
            for ev, facts, v, st in r2:
                binds.append((dict(zip(names, v[1])), runs + [(ev, facts, st)]))
        else:
            binds.append((env, runs))
    return main, names, binds


def setup(repo, rep, f, runs, mode):
    """before the first solve: work vectors cleared, the model linearized"""
    relv = False
    for ev, facts, st in runs:
        cleared = {}
        lin = []
        for k, e in enumerate(ev):
            if e[0] == 'set' and e[2] in (T.const(0.0), T.const(0)) and e[1][2] == FULL:
                for t in alternatives(e[1][1]):
                    if t[0] == 'attr' and t[2] == 'vec' and t[1][0] == 'sub':
                        for b in alternatives(t[1][1]):
                            if b[0] == 'attr' and b[1] == ROOT:
                                cleared[b[2], t[1][2]] = k
            if e[0] == 'call' and e[1] == '_sys_linearize':
                lin.append(e)
        if not any(e[0] == 'call' for e in ev):
            continue
        for w in ('dumat', 'drmat'):
            rep.ob('setup/clear %s' % w, (w, T.NONE) in cleared, 'the common vector of %s is not cleared before the solves' % w, where(f), 'setup')
            for k, x in facts.items():
                if k[0] == 'in' and x is True and k[2] == ('attr', ROOT, 'dumat') and mentions(k[1], lambda z: z[0] == 'call' and ext_tail(z[1]) == 'vars_of_interest'):
                    relv = True
                    rep.ob('setup/clear %s of a set' % w, (w, k[1]) in cleared, 'the vector of %s of a variable of interest is not cleared before the solves' % w, where(f), 'setup')
        rep.ob('setup/linearize', len(lin) == 1 and lin[0][2] == ('attr', ROOT, '_sys_linearize') and lin[0][3][:3] == (('attr', ROOT, 'params'), ('attr', ROOT, 'unknowns'), ('attr', ROOT, 'resids')) and not any(k in ('total_derivs',) for k, _ in lin[0][4]),
               'the model is linearized %d times before the solves, or somewhere else' % len(lin), where(f), 'setup')
        rep.ob('setup/clear inputs', any(e[0] == 'call' and e[1] == 'clear_dparams' and e[2][1] == ROOT for e in ev), 'the derivative inputs are not cleared before the solves', where(f), 'setup')
    return relv


def wanted_sets(repo, rep, f, g, P, runs, env, mode):
    """the sets solved for cover every requested variable, together only where the solver can"""
    want = IND if mode == 'fwd' else UNK
    n = 0
    for ev, facts, st in runs:
        for e in ev:
            if e[0] != 'call' or e[1] not in ('append', 'extend') or not e[3]:
                continue
            a = e[3][0]
            asked = [k for k, x in facts.items() if k[0] == 'in' and x is True and k[2] == env['input_set']] if 'input_set' in env else []
            lgs = [x for k, x in facts.items() if k[0] == 'call' and k[1] == ('ext', 'isinstance') and 'LinearGaussSeidel' in T.show(k[2][1]) and k[2][0] == ('attr', ROOT, 'ln_solver')]
            if e[1] == 'append' and a[0] == 'elem' and mentions(a, lambda z: z[0] == 'call' and ext_tail(z[1]) == 'vars_of_interest'):
                n += 1
                own = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'all' and len(k[2]) == 1 and k[2][0][0] == 'comp' and vkey_of(k[2][0][2], a) and k[2][0][3] == (a,)]
                rep.ob('sets/together', lgs == [True] or own == [True], 'a set of variables is solved together by a solver that handles one at a time', e[5], 'sets')
                rep.ob('sets/asked', any(k[1] == ('elem', a) for k in asked), 'a set of variables is solved for none of which is asked for', e[5], 'sets')
            elif e[1] == 'append' and a[0] == 'tuple' and len(a[1]) == 1:
                x = a[1][0]
                rest = [k for k, v in facts.items() if k[0] == 'in' and k[1] == x and v is False]
                n += 1
                rep.ob('sets/single', T.contains(x, lambda z: z in (want, ('elem', want))) or x == ('elem', want) or mentions(x, lambda z: z[0] == 'call' and ext_tail(z[1]) == 'vars_of_interest') and any(k[1] == x for k in asked), 'a set of one holds %s' % T.show(x), e[5], 'sets')
                if x == ('elem', want):
                    rep.ob('sets/left out', bool(rest), 'a variable is solved for on its own although it is in a set', e[5], 'sets')
            elif e[1] == 'extend' and a[0] == 'comp':
                n += 1
                rep.ob('sets/one by one', a[2][0] == 'tuple' and len(a[2][1]) == 1 and a[2][1][0][0] == 'elem', 'the variables of a set are not solved one by one: %s' % T.show(a), e[5], 'sets')
        # a requested variable always gets into some set
        for k, x in facts.items():
            if k[0] == 'in' and k[1] == ('elem', want) and x is False and T.contains(k[2], lambda z: z[0] == 'call' and ext_tail(z[1]) == 'vars_of_interest' or z[0] == 'comp'):
                n += 1
                rep.ob('sets/covered', any(e[0] == 'call' and e[1] == 'append' and e[3] and e[3][0] == ('tuple', (('elem', want),)) for e in ev), 'a requested variable that is in no set is not solved for', where(g), 'sets')
            if k[0] == 'in' and x is True and 'input_set' in env and k[2] == env['input_set'] and mentions(k[1], lambda z: z[0] == 'call' and ext_tail(z[1]) == 'vars_of_interest'):
                n += 1
                rep.ob('sets/requested', any(e[0] == 'call' and e[1] in ('append', 'extend') and e[3] and T.contains(e[3][0], lambda z: z[0] == 'elem' and z in T.subterms(k[1])) for e in ev), 'a set with a requested variable is not solved for', where(g), 'sets')
    return n


def blocks(repo, rep, f, runs, env):
    """the rows and columns of the returned array: running sums of the sizes of the variables"""
    n = 0
    for ev, facts, st in runs:
        for e in ev:
            if e[0] != 'set' or e[2][0] not in ('slice', 'call') or e[1][2] not in (('elem', IND), ('elem', UNK)):
                continue
            s = e[2]
            if s[0] == 'call' and ext_tail(s[1]) == 'slice' and len(s[2]) == 2:
                s = ('slice', s[2][0], s[2][1], T.NONE)
            if s[0] != 'slice':
                continue
            n += 1
            rows = e[1][2][1] == UNK
            what = 'rows' if rows else 'columns'
            var = e[1][2]
            sel = QOI if rows else POI
            lo, hi = s[1], s[2]
            size = [x for sg, x in addends(hi) if (sg, x) not in addends(lo)]
            picked = chosen(facts, var, sel)
            rep.ob('blocks/%s start' % what, lo[0] == 'mu', 'the first of the %s of a variable is %s' % (what, T.show(lo)), e[3], 'blocks')
            if picked:
                ok = len(size) == 1 and size[0] == ('call', ('ext', 'len'), (('sub', sel, var),), ()) or len(size) == 1 and T.show(size[0]) == 'len(%s)' % T.show(('sub', sel, var))
            else:
                ok = picked is False and len(size) == 1 and size[0][0] == 'sub' and size[0][2] == T.const('size') and mentions(size[0][1], lambda z: z == var)
            rep.ob('blocks/%s %s' % (what, 'picked' if picked else 'whole'), ok, 'a variable takes %s %s' % (T.show(size[0]) if size else 'no', what), e[3], 'blocks')
            if lo[0] == 'mu':
                z = [x for x in T.subterms(env.get('J', T.NONE)) if x == lo]
                shape = zeros_of(env['J']) if 'J' in env else None
                if shape and mentions(shape, lambda q: q == lo):
                    k = 0 if rows else 1
                    rep.ob('blocks/shape %s' % what, len(shape[1]) == 2 and mentions(shape[1][k], lambda q: q == lo) and not mentions(shape[1][1 - k], lambda q: q == lo), 'the %s of the array are not counted along axis %d' % (what, k), e[3], 'blocks')
    return n


def main_loop(repo, rep, P, g, main, env, mode, fmt):
    c = Fixed(mode, fmt, calls=('solve', '_get_local_idxs', 'to_idx_array', '_get_voi_key'), cells=CELLS)
    res, out, I = traces(repo, main, P, client=c, env=env)
    rep.saw('paths', len(res))
    fwd = mode == 'fwd'
    want, items = (IND, UNK) if fwd else (UNK, IND)
    pick, give = (POI, QOI) if fwd else (QOI, POI)
    solved = placed = 0
    seen = set()
    for ev, facts, v, st in res:
        key = tuple(e[:3] if e[0] != 'call' else (e[1], e[3]) for e in ev), tuple(sorted(facts.items(), key=repr))
        # ---- the right-hand side
        sol = [(k, e) for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'solve']
        rep.ob('%s/%s solve once' % (mode, fmt), len(sol) <= 1, 'an entry is solved for %d times' % len(sol), sol[-1][1][5] if sol else where(g), 'solve')
        ones = [(k, e) for k, e in enumerate(ev) if e[0] == 'set' and e[2] in (T.const(-1.0), T.const(-1), ('un', '-', T.const(1.0)))]
        vs = voi = None
        for e in ev:
            if e[0] == 'call' and e[1] == '_get_voi_key' and len(e[3]) >= 2:
                vs = e[3][1]
                break
        if vs is None:
            continue
        voi = ('elem', vs)
        if facts.get(('nonempty', vs)) is False:
            continue
        K = None
        for e in ev:
            if e[0] == 'call' and e[1] == '_get_voi_key' and e[3][:2] == (voi, vs):
                K = ('call', e[2], e[3], tuple(sorted(e[4])), None)
                break
        dum = ('sub', ('attr', ROOT, 'dumat'), K) if K else None
        for k, e in sol:
            solved += 1
            rep.ob('%s/solve arguments' % mode, e[2] == ('attr', ('attr', ROOT, 'ln_solver'), 'solve') and len(e[3]) + len(e[4]) == 3, 'the solver of the whole model is not the one asked', e[5], 'solve')
            a = dict(e[4])
            rhs = e[3][0] if e[3] else a.get('rhs_mat')
            m = e[3][2] if len(e[3]) > 2 else a.get('mode')
            rep.ob('%s/solve direction' % mode, m is not None and m == env.get('mode', m) and (m == T.const(mode) or m[0] == 'call' and ext_tail(m[1]) == '_mode'), 'the solve is made in direction %s' % T.show(m or T.NONE), e[5], 'solve')
            rep.ob('%s/solve system' % mode, (e[3][1] if len(e[3]) > 1 else a.get('system')) == ROOT, 'the solve is not made on the whole model', e[5], 'solve')
            if not K or not rhs:
                continue
            vec = [x for kk, x in enumerate(ev) if kk < k and x[0] == 'set' and x[1] == ('sub', rhs, K)]
            if not vec and facts.get(('nonempty', vs)) is False:
                continue
            if not vec:
                continue
            rep.ob('%s/rhs size' % mode, vec[-1][2][0] == 'call' and ext_tail(vec[-1][2][1]) in ('empty', 'zeros') and mentions(vec[-1][2], lambda z: z == ('attr', dum, 'vec')), 'the right-hand side of a variable is %s' % T.show(vec[-1][2]), vec[-1][3], 'rhs')
            V = vec[-1][2]
            into = [(kk, x) for kk, x in enumerate(ev) if kk < k and x[0] in ('set', 'aug') and (x[1] if x[0] == 'set' else x[2])[1] in (V, ('sub', rhs, K))]
            zero = [kk for kk, x in into if x[0] == 'set' and x[1][2] in (FULL, ('const', Ellipsis)) and x[2] in (T.const(0.0), T.const(0))]
            one = [(kk, x) for kk, x in into if x[0] == 'set' and (kk, x) in ones]
            inner_empty = facts.get(('nonempty', vs)) is False
            cond = [x for kk, x in facts.items() if kk[0] == 'in' and kk[1] == voi and kk[2][0] in ('comp', 'mu', 'list', 'phi')]
            mine = [x for kk, x in facts.items() if kk[0] == 'eq' and mentions_attr(kk, '_owning_ranks') and mentions(kk, lambda z: z == voi)]
            rep.ob('%s/rhs cleared' % mode, len(zero) == 1 or not zero and not one and not into and inner_empty or T.show(V).startswith('zeros') and False, 'the right-hand side of a variable is not cleared before every solve', e[5], 'rhs')
            if False in cond or False in mine:
                rep.ob('%s/rhs left out' % mode, not one, 'the right-hand side of an entry that is not solved for is not zero', e[5], 'rhs')
                continue
            if not one and any(kk[0] in ('mu', 'list') and x is True for kk, x in facts.items()):
                continue        # left out by a list built entry by entry
            rep.ob('%s/rhs entry' % mode, len(one) == 1 and len(into) == len(zero) + 1 and (not zero or one[0][0] > zero[-1]), 'the right-hand side has %d entries of -1' % len(one), e[5], 'rhs')
            for kk, x in one:
                ix = x[1][2]
                seq = ix[1] if ix[0] == 'elem' else ix[1] if ix[0] == 'sub' and ix[2][0] == 'idx' else None
                ok = seq is not None and (
                    seq[0] == 'call' and ext_tail(seq[1]) == '_get_local_idxs' and seq[1][1] == dum and seq[2][:1] == (voi,) and seq[2][1:2] == (pick,)
                    or seq[0] == 'call' and ext_tail(seq[1]) == 'to_idx_array' and seq[1][1] == dum and seq[2] == (('sub', pick, voi),)
                    or seq[0] == 'call' and ext_tail(seq[1]) in ('arange', 'range') and mentions(seq, lambda z: z == voi) and mentions(seq, lambda z: z == T.const('size')))
                rep.ob('%s/rhs place' % mode, ok, 'the entry of the right-hand side is %s' % T.show(ix), x[3], 'rhs')
                if ok and ext_tail(seq[1]) != '_get_local_idxs':
                    inp = facts.get(('in', voi, pick))
                    rep.ob('%s/rhs picked' % mode, inp is (ext_tail(seq[1]) == 'to_idx_array'), 'the entries of a variable are counted without regard to the ones that are wanted', x[3], 'rhs')
        # ---- no solve only where nothing is active
        if not sol and any(e[0] == 'call' and e[1] == '_get_voi_key' for e in ev) and any(k[0] == 'nonempty' and x is True and T.show(k[1]).startswith('range') for k, x in facts.items()):
            why = [kk for kk, x in facts.items() if kk[0] in ('comp', 'mu', 'list') and x is False or kk[0] == 'in' and x is True and mentions(kk[2], lambda z: z == ('param', 'inactives'))
                   or kk[0] == 'nonempty' and x is False and kk[1][0] in ('comp', 'mu', 'list') or kk[0] == 'call' and ext_tail(kk[1]) in ('all', 'any')]
            rep.ob('%s/skipped' % mode, bool(why), 'an entry is not solved for although nothing says that it is inactive', where(g, main.node.body[0]), 'skip')
            if fwd:
                rep.ob('fwd/skipped', all(x[0] in ('comp', 'mu', 'list', 'nonempty') for x in why) if why else True, 'an entry is not solved for in the direction in which every one is needed', where(g, main.node.body[0]), 'skip')
        # ---- where the solution goes
        J = env.get('J')
        put = []
        for k, e in enumerate(ev):
            if e[0] != 'set' or J is None:
                continue
            if jcell(e[1], J):
                put.append((e, jpath(e[1], J)))
            else:       # into a table just made for a pair
                own = [x for x in ev[:k] if x[0] == 'set' and jcell(x[1], J) and e[1][0] == 'sub' and e[1][1] == x[2]]
                if own:
                    put.append((e, jpath(own[-1][1], J) + [e[1][2]]))
        for e, path in put:
            z = zeros_of(e[2])
            if fmt == 'dict' and len(path) == 2:
                p, o = (path[1], path[0]) if fwd else (path[0], path[1])
                n = z[1] if z else ()
                k = 1 if fwd else 0
                rep.ob('%s/dict table' % mode, len(n) == 2 and is_entry_count(n[k], ev, pick, voi) and not is_entry_count(n[1 - k], ev, pick, voi), 'the table of a pair has size %s' % T.show(e[2]), e[3], 'place')
                rep.ob('%s/dict table kept' % mode, facts.get(('is', e[1], T.NONE)) is True, 'the table of a pair is started anew for an entry after the first', e[3], 'place')
                continue
            val = e[2]
            at = place(path, fwd, fmt, env)
            rep.ob('%s/%s cell' % (mode, fmt), at is not None, 'the entries of the result are put at %s' % T.show(('tuple', tuple(path))), e[3], 'place')
            if at is None:
                continue
            item, param, i = at
            placed += 1
            rep.ob('%s/%s rows and columns' % (mode, fmt), item == ('elem', items), 'the entries found are put at the ones of %s' % T.show(item), e[3], 'place')
            rep.ob('%s/%s entry' % (mode, fmt), i[0] == 'idx' and is_entry_seq(i[1], pick, voi, facts), 'the entries found are put at number %s' % T.show(i), e[3], 'place')
            E, M = dx_of(val, ev, sol, param)
            rel = [x for kk, x in facts.items() if kk[0] == 'call' and ext_tail(kk[1]) == 'is_relevant']
            relk = [kk for kk in facts if kk[0] == 'call' and ext_tail(kk[1]) == 'is_relevant']
            for kk in relk:
                rep.ob('%s/%s relevance' % (mode, fmt), len(kk[2]) == 2 and vkey_of(kk[2][0], vs) and kk[2][1] == item and kk[2][0][2][0] == dx_elem(facts, env, vs, param), 'whether a pair matters is decided for %s' % T.show(kk), e[3], 'place')
            if rel == [False]:
                n = zeros_of(val)
                picked = chosen(facts, item, give)
                ok = n is not None and len(n[1]) == 1 and (T.show(n[1][0]) == 'len(%s)' % T.show(('sub', give, item)) if picked else picked is False and n[1][0][0] == 'sub' and n[1][0][2] == T.const('size') and mentions(n[1][0], lambda z: z == item))
                rep.ob('%s/%s no influence' % (mode, fmt), ok, 'an entry without influence is set to %s' % T.show(val), e[3], 'place')
                continue
            rep.ob('%s/%s value' % (mode, fmt), E is not None, 'the entries put are %s' % T.show(val), e[3], 'place')
            if E is None:
                continue
            sel = val[2]
            vk = sel[1][1][2] if sel[0] == 'call' and ext_tail(sel[1]) == '_get_local_idxs' and sel[1][1][0] == 'sub' and sel[1][1][1] == ('attr', ROOT, 'dumat') else None
            rep.ob('%s/%s part' % (mode, fmt), vk is not None and vkey_of(vk, vs) and vk[2][0] == E and sel[2][:1] == (item,) and sel[2][1:2] == (give,), 'the part of the solution used is %s' % T.show(sel), e[3], 'place')
            ok = param == E and facts.get(('is', E, T.NONE)) is not True or param == ('sub', vs, T.const(0)) and facts.get(('is', E, T.NONE)) is True
            rep.ob('%s/%s variable' % (mode, fmt), ok, 'the solution for %s is put at %s' % (T.show(E), T.show(param)), e[3], 'place')
        cells = [e for e, path in put if not (fmt == 'dict' and len(path) == 2)]
        rep.ob('%s/%s once' % (mode, fmt), len(cells) <= 1, 'an entry is put %d times' % len(cells), cells[-1][3] if cells else where(g), 'place')
        full = all(x is not False for k, x in facts.items() if k[0] == 'nonempty' and not (k[1] == vs))
        if not cells and full and any(k[0] == 'call' and ext_tail(k[1]) == 'is_relevant' or k[0] == 'in' and k[2] == env.get('input_set') for k in facts):
            why = []
            for k, x in facts.items():
                if k[0] == 'in' and x is False and (k[2] == env.get('input_set') or mentions(k[2], lambda z: z == ('param', 'sparsity'))):
                    why.append(k)
                if k[0] == 'eq' and x is True and k[1][0] == 'attr' and k[1][2] == 'size' and k[2] == T.const(0) or k[0] == 'eq' and x is False and mentions_attr(k, '_owning_ranks'):
                    why.append(k)
                if k[0] == 'is' and x is True and k[2] == T.NONE and k[1][0] == 'sub' and k[1][2][0] == 'call' and ext_tail(k[1][2][1]) == '_get_local_idxs':
                    why.append(k)
            rep.ob('%s/%s left out' % (mode, fmt), bool(why), 'the entries of a requested pair are not put anywhere', where(g, main.node.body[0]), 'place')
            for k in why:
                if k[0] == 'in' and k[2] != env.get('input_set'):
                    t = k[2]
                    prm = lambda x: x == ('sub', vs, T.const(0)) or x[0] == 'elem' and x[1] not in (IND, UNK)
                    ok = t[0] == 'sub' and t[1] == ('param', 'sparsity') and (t[2] == ('elem', UNK) and prm(k[1]) if fwd else prm(t[2]) and k[1] == ('elem', IND))
                    rep.ob('%s/%s sparsity' % (mode, fmt), ok, 'a pair is left out if %s' % T.show(k), where(g, main.node.body[0]), 'place')
    # ---- which entries count as inactive
    for k, recs in I.compconds.items():
        if not any(isinstance(n, ast.Name) for n in ast.walk(recs[0][0][0])) or not any(isinstance(n, ast.Name) and 'inactive' in n.id for c0 in recs[0][0] for n in ast.walk(c0)):
            continue
        for conds, e in recs:
            test = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=list(conds))
            src = ast.If(test=test, body=[ast.Return(value=ast.Constant(value=True))], orelse=[ast.Return(value=ast.Constant(value=False))])
            ast.copy_location(src, main.node.body[0])
            ast.fix_missing_locations(src)
            u = unit(g, src)
            r2, o2, I2 = traces(repo, u, P, client=Fixed(mode, fmt, cells=lambda c: False), env={n: e[n] for n in pn(u) if n in e})
            for ev, facts, v, st in r2:
                on = [x for kk, x in facts.items() if kk[0] == 'nonempty' and mentions(kk[1], lambda z: z == ('param', 'inactives'))]
                has = [x for kk, x in facts.items() if kk[0] == 'in' and kk[2] == ('param', 'inactives')]
                inx = [x for kk, x in facts.items() if kk[0] == 'in' and kk[2][0] == 'sub' and kk[2][1] == ('param', 'inactives') and kk[1][0] == 'idx']
                dead = not fwd and has == [True] and inx == [True] and False not in on
                rep.saw('inactive cases')
                rep.ob('%s/active' % mode, v == T.const(not dead), 'an entry counts as %s in the case %s' % ('active' if v == T.const(True) else 'inactive', {T.show(a): b for a, b in facts.items()}), where(g, main.node.body[0]), 'skip')
    return solved, placed


def jcell(c, J):
    while c[0] == 'sub':
        c = c[1]
        if c == J:
            return True
    return False


def jpath(c, J):
    p = []
    while c != J:
        p.insert(0, c[2])
        c = c[1]
    return p


def block(t):
    """table[var] of the rows or columns: (table, var)"""
    if t[0] == 'sub':
        return t[1], t[2]


def first_of(t):
    """table[var].start + i"""
    parts = [x for s, x in addends(t)] if all(s == 1 for s, x in addends(t)) else []
    st = [x for x in parts if x[0] == 'attr' and x[2] == 'start']
    if len(parts) == 2 and len(st) == 1:
        b = block(st[0][1])
        return b and b + ([x for x in parts if x is not st[0]][0],)


def place(path, fwd, fmt, env):
    """(row or column variable, variable solved for, entry) a cell stands for"""
    if fmt == 'dict':
        if len(path) != 3 or path[2][0] != 'tuple' or len(path[2][1]) != 2:
            return None
        s = path[2][1]
        k = 1 if fwd else 0
        if s[1 - k] != FULL or s[k] == FULL:
            return None
        return (path[0], path[1], s[k]) if fwd else (path[1], path[0], s[k])
    if len(path) == 2:
        path = [('tuple', tuple(path))]
    if len(path) != 1 or path[0][0] != 'tuple' or len(path[0][1]) != 2:
        return None
    r, c = path[0][1]
    if fwd:
        b, x = block(r), first_of(c)
        ok = b and x and b[0] == env.get('Jrows', b[0]) and x[0] == env.get('Jcols', x[0])
    else:
        b, x = block(c), first_of(r)
        ok = b and x and b[0] == env.get('Jcols', b[0]) and x[0] == env.get('Jrows', x[0])
    return (b[1], x[1], x[2]) if ok and b[0] != x[0] else None


def is_entry_seq(t, pick, voi, facts):
    if t[0] == 'call' and ext_tail(t[1]) == 'range' and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == 'call' and ext_tail(t[1]) == 'len' and len(t[2]) == 1:
        t = t[2][0]
    if facts.get(('nonempty', voi[1])) is False:
        return True
    return t[0] == 'call' and ext_tail(t[1]) in ('_get_local_idxs', 'to_idx_array', 'arange') and mentions(t, lambda z: z == voi)


def is_entry_count(t, ev, pick, voi):
    return t[0] == 'call' and ext_tail(t[1]) == 'len' and len(t[2]) == 1 and is_entry_seq(t[2][0], pick, voi, {})


def dx_of(val, ev, sol, param):
    """the variable whose solution a value is part of"""
    if val[0] != 'sub':
        return None, None
    d = val[1]
    if d[0] == 'sub' and d[2][0] == 'elem' and d[2][1] == d[1]:
        return d[2], d[1]
    if sol:
        return None, None
    for e in ev:            # no solve was made: zeros for every variable of the set
        if e[0] == 'set' and e[2] == d and zeros_of(d):
            return ('elem', e[1][1]), e[1][1]
    return None, None


def dx_elem(facts, env, vs, param):
    for k in facts:
        if k[0] == 'is' and k[2] == T.NONE and k[1][0] == 'elem' and facts[k] is True and param == ('sub', vs, T.const(0)):
            return k[1]
    return param


def fd(repo, rep, P):
    """the finite difference version: the same table from the pairs of the model"""
    f = repo.method(P, '_calc_gradient_fd')
    rep.need(f, '_calc_gradient_fd not found')
    rep.fn(f.qualname)
    for fmt in ('array', 'dict'):
        c = Fixed(None, fmt, calls=('fd_jacobian',), cells=CELLS)
        loops = [s for s in f.node.body if isinstance(s, (ast.For, ast.If)) and any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) for y in ast.walk(s))]
        res, out, I = traces(repo, f, P, client=c)
        rep.saw('paths', len(res))
        n = 0
        for ev, facts, v, st in res:
            call = [e for e in ev if e[0] == 'call' and e[1] == 'fd_jacobian']
            rep.ob('fd/one model pass', len(call) == 1, 'the model is differenced %d times' % len(call), where(f), 'fd')
            if len(call) != 1:
                continue
            kw = dict(call[0][4])
            a = call[0][3]
            rep.ob('fd/vectors', a[:3] == (('attr', ROOT, 'params'), ('attr', ROOT, 'unknowns'), ('attr', ROOT, 'resids')) and kw.get('total_derivs') == T.const(True), 'the model is not differenced as a whole', call[0][5], 'fd')
            rep.ob('fd/indices', kw.get('poi_indices') == POI and kw.get('qoi_indices') == QOI, 'the wanted entries are not handed on', call[0][5], 'fd')
            J = v
            shape = zeros_of(J)
            if fmt == 'array' and shape:
                for ax, (var, sel) in enumerate(((('elem', UNK), QOI), (('elem', IND), POI))):
                    part = [x for sg, x in addends(shape[1][ax]) if x[0] not in ('mu', 'const')]
                    if facts.get(('nonempty', var[1])) is True:
                        size = T.show(part[0]) == 'len(%s)' % T.show(('sub', sel, var)) if chosen(facts, var, sel) else chosen(facts, var, sel) is False and len(part) == 1 and part[0][0] == 'sub' and part[0][2] == T.const('size') and mentions(part[0][1], lambda z: z == var)
                        rep.ob('fd/size %d' % ax, len(part) == 1 and size, 'axis %d of the array counts %s' % (ax, T.show(shape[1][ax])), where(f), 'fd')
            for e in ev:
                if e[0] != 'set' or e[1][0] != 'sub':
                    continue
                owner = [x for x in ev if x[0] == 'set' and x[1][0] == 'sub' and x[1][1] == J and x[2] == e[1][1]]
                if owner:
                    path = [owner[-1][1][2], e[1][2]]
                elif jcell(e[1], J):
                    path = jpath(e[1], J)
                else:
                    continue
                if fmt == 'dict' and len(path) == 1:
                    continue
                n += 1
                val = e[2]
                if fmt == 'dict':
                    ok = path == [('elem', UNK), ('elem', IND)]
                else:
                    ok = len(path) == 1 and path[0][0] == 'tuple' and len(path[0][1]) == 2
                    if ok:
                        for ax, s in enumerate(path[0][1]):
                            step = [x for sg, x in addends(s[2]) if (sg, x) not in addends(s[1])] if s[0] == 'slice' else []
                            rep.ob('fd/array extent', len(step) == 1 and is_shape(step[0], val, ax) and s[1][0] in ('mu', 'const'), 'a block takes %s along axis %d' % (T.show(s), ax), e[3], 'fd')
                rep.ob('fd/%s cell' % fmt, ok, 'a block is put at %s' % T.show(e[1]), e[3], 'fd')
                key = val[2] if val[0] == 'sub' else None
                ok = key is not None and val[1][0] == 'call' and ext_tail(val[1][1]) == 'fd_jacobian' and key[0] == 'tuple' and len(key[1]) == 2 and key[1][0] == ('elem', UNK) and not T.contains(key[1][1], lambda z: z == UNK) and found_by(key[1][1], facts)
                rep.ob('fd/%s pair' % fmt, ok, 'the block of a pair is %s' % T.show(val), e[3], 'fd')
        rep.need(n, '_calc_gradient_fd was not understood')
    counters(repo, rep, f)


def of_ind(z):
    return z in (('idx', IND), ('elem', IND))


def found_by(t, facts):
    """whether a name is that of the variable analysed, or found by comparing with it"""
    elems = lambda x: {z for z in T.subterms(x) if z[0] == 'elem'}
    known, more = set(), True
    while more:
        more = False
        for k, x in facts.items():
            if k[0] == 'eq' and x is True and (T.contains(k, of_ind) or elems(k) & known) and elems(k) - known:
                known |= elems(k)
                more = True
    return T.contains(t, of_ind) or bool(elems(t) & known)


def is_shape(t, val, ax):
    return t == ('sub', ('attr', val, 'shape'), T.const(ax)) or t[0] == 'call' and ext_tail(t[1]) == 'len' and ax == 0 and t[2] == (val,)


def counters(repo, rep, f):
    """the offsets of the array: rows once per row block, columns from the start for every row"""
    loops = [n for n in ast.walk(f.node) if isinstance(n, ast.For) and any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.slice, ast.Tuple) and all(isinstance(q, ast.Slice) for q in y.slice.elts) for y in ast.walk(n))]
    if len(loops) != 2:
        return
    outer, inner = loops if any(x is loops[1] for x in ast.walk(loops[0])) else loops[::-1]
    sub = [y for y in ast.walk(inner) if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.slice, ast.Tuple) and all(isinstance(q, ast.Slice) for q in y.slice.elts)][0]
    names = [q.lower.id if isinstance(q.lower, ast.Name) else None for q in sub.slice.elts]
    if None in names:
        return
    row, col = names

    def writes(x, name):
        return [s for s in ast.walk(x) if isinstance(s, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id == name for t0 in (s.targets if isinstance(s, ast.Assign) else [s.target]) for t in ast.walk(t0) if isinstance(getattr(t, 'ctx', None), ast.Store))]
    w = where(f, outer)
    rep.ob('fd/row offset', starts_at(f, outer, row) and not writes(inner, row) and len(writes(outer, row)) == 1, 'the row offset does not advance once per row block from 0', w, 'fd')
    ci = [s for s in writes(outer, col) if s not in writes(inner, col)]
    rep.ob('fd/column offset', len(writes(inner, col)) == 1 and len(ci) == 1 and isinstance(ci[0], ast.Assign) and isinstance(ci[0].value, ast.Constant) and ci[0].value.value == 0 and ci[0].lineno < inner.lineno, 'the column offset does not start from 0 for every row block and advance once per column block', w, 'fd')
    for body, name, ax in ((inner.body, col, 1), (outer.body, row, 0)):
        ret = ast.copy_location(ast.Return(value=ast.Name(id=name, ctx=ast.Load())), outer)
        ast.fix_missing_locations(ret)
        c = Fixed(None, 'array', cells=lambda c: False)
        res, out, I = traces(repo, unit(f, *(list(body) + [ret])), None, client=c)
        for ev, facts, v, st in res:
            if any(k[0] == 'nonempty' and x is False for k, x in facts.items()):
                continue
            step = [x for sg, x in addends(v) if x not in (('param', name), T.const(0)) and x[0] not in ('mu',)]
            rep.ob('fd/advance %d' % ax, len(step) == 1 and (step[0][0] == 'sub' and step[0][1][0] == 'attr' and step[0][1][2] == 'shape' and step[0][2] == T.const(ax) or step[0][0] == 'call' and ext_tail(step[0][1]) == 'len' and ax == 0), 'the offset of axis %d advances by %s' % (ax, T.show(v)), w, 'fd')


def of_ind(z):
    return z in (('idx', IND), ('elem', IND))


def direction(repo, rep, P):
    """the direction: what the call asks for, else what the solver asks for, else what is cheaper"""
    f = repo.method(P, '_mode')
    rep.need(f, '_mode not found')
    rep.fn(f.qualname)
    for arg in ('fwd', 'rev', 'auto'):
        c = Trace(cells=lambda c: c[0] == 'attr')
        c.havoc_containers = True
        res, out, I = traces(repo, f, P, client=c, env={pn(f)[0]: T.const(arg)})
        rep.need(res, '_mode was not understood')
        for ev, facts, v, st in res:
            if arg != 'auto':
                rep.ob('direction/call', v == T.const(arg), 'the direction asked for in the call is not used', where(f), 'direction')
                continue
            d = {k[1]: x for k, x in facts.items() if k[0] == 'eq' and k[2][0] == 'const' and k[1][0] != 'const'}
            o = [k for k in d if is_option(k)]
            if v[0] == 'const':
                rep.ob('direction/computed', v in (T.const('fwd'), T.const('rev')) and len(o) == 1 and facts.get(('eq', o[0], T.const('auto'))) is True, 'the direction is %s although the option of the solver was not asked' % T.show(v), where(f), 'direction')
            else:
                rep.ob('direction/option', is_option(v) and facts.get(('eq', v, T.const('auto'))) is False, 'the direction the solver is set to is not used: %s' % T.show(v), where(f), 'direction')
    # the same direction is chosen when the model is set up
    g = repo.method(P, '_get_voi_key')
    rep.need(g, '_get_voi_key not found')
    rep.fn(g.qualname)
    c = Trace(cells=lambda c: False)
    res, out, I = traces(repo, g, P, client=c)
    for ev, facts, v, st in res:
        voi, grp = ('param', pn(g)[0]), ('param', pn(g)[1])
        many = [several(k, x, grp) for k, x in facts.items() if several(k, x, grp) is not None]
        if v == T.NONE:
            ok = any(x is False and not mentions(k, lambda z: z == grp) for k, x in facts.items()) or many == [False]
            rep.ob('vectors/common', ok and True not in many and (many or any(x is False for x in facts.values())), 'a variable of a set of several shares the common vectors', where(g), 'vectors')
            continue
        rep.ob('vectors/key', v == voi, 'the vectors of a variable are found under %s' % T.show(v), where(g), 'vectors')
        rep.ob('vectors/own', facts.get(('in', voi, ('attr', ROOT, 'dumat'))) is True and any(k[0] == 'call' and k[1] == ('ext', 'isinstance') and x is True and 'LinearGaussSeidel' in T.show(k[2][1]) for k, x in facts.items()), 'a variable is given vectors of its own although none were made for it', where(g), 'vectors')
        rep.ob('vectors/when', True in many or any(x is True and T.show(k).find('single_voi_relevance_reduction') >= 0 for k, x in facts.items()), 'a variable is given vectors of its own although it is alone', where(g), 'vectors')


def several(k, x, grp):
    """whether a fact says that the set has more than one member"""
    n = [z for z in T.subterms(k) if z[0] == 'call' and ext_tail(z[1]) == 'len' and z[2] == (grp,)]
    if not n:
        return None
    n = n[0]
    if k in (('lt', T.const(1), n), ('le', T.const(2), n)):
        return x
    if k in (('le', n, T.const(1)), ('lt', n, T.const(2)), ('eq', n, T.const(1))):
        return not x
    return None


def is_option(t):
    return t[0] == 'sub' and t[2] == T.const('mode') and is_prop(t[1], 'ln_solver', 'options')


def dispatch(repo, rep, P):
    """the call reaches the right version with what it was given"""
    f = repo.method(P, 'calc_gradient')
    rep.need(f, 'calc_gradient not found')
    rep.fn(f.qualname)
    n = 0
    for arg in ('fd', 'fwd', 'rev', 'auto'):
        c = Trace(calls=('_calc_gradient_fd', '_calc_gradient_ln_solver'), cells=lambda c: False)
        c.havoc_containers = True
        res, out, I = traces(repo, f, P, client=c, env={'mode': T.const(arg)})
        for ev, facts, v, st in res:
            cs = [e for e in ev if e[0] == 'call' and e[1].startswith('_calc_gradient')]
            rep.ob('call/once', len(cs) == 1, 'the derivatives are computed %d times' % len(cs), where(f), 'call')
            for e in cs:
                n += 1
                usr = [x for k, x in facts.items() if k[0] == 'eq' and k[2] == T.const('user') and is_prop(k[1][1] if k[1][0] == 'sub' else k[1], 'deriv_options')]
                want = '_calc_gradient_fd' if arg == 'fd' or usr == [False] else '_calc_gradient_ln_solver' if usr == [True] else None
                rep.ob('call/version', e[1] == want, 'the derivatives are computed by %s' % e[1], e[5], 'call')
                g = repo.method(P, e[1])
                got = dict(zip(pn(g), e[3]))
                got.update(dict(e[4]))
                for p in pn(g):
                    if p == 'mode':
                        rep.ob('call/mode', got.get(p) == T.const(arg), 'the direction given is not handed on', e[5], 'call')
                    elif p in pn(f):
                        rep.ob('call/%s %s' % (e[1], p), got.get(p) == ('param', p), 'the %s given is not handed on' % p, e[5], 'call')
                rep.ob('call/result', v == ('call', e[2], e[3], tuple(sorted(e[4])), None), 'the result is not what is returned', e[5], 'call')
    rep.need(n, 'calc_gradient was not understood')


def check(repo, rep, tier):
    P = repo.cls('Problem')
    rep.need(P, 'Problem not found')
    f = repo.method(P, '_calc_gradient_ln_solver')
    rep.need(f, '_calc_gradient_ln_solver not found')
    rep.fn(f.qualname)
    isolve = lambda n: isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'solve'
    loops = [(f, l) for _, l in outer_loops(repo, f, isolve, deep=False)] or outer_loops(repo, f, isolve)
    rep.need(len(loops) == 1, 'the loop of solves was not found')
    g, loop = loops[0]
    rep.fn(g.qualname)
    for mode in ('fwd', 'rev'):
        for fmt in ('array', 'dict'):
            main, names, binds = roles(repo, rep, P, f, g, loop, mode, fmt)
            rep.need(binds, 'nothing reaches the loop of solves')
            best = {}
            for env, runs in binds:
                setup(repo, rep, f, runs, mode)
                n = wanted_sets(repo, rep, f, g, P, runs, env, mode)
                rep.saw('sets', n)
                if fmt == 'array':
                    rep.saw('blocks', blocks(repo, rep, f, runs, env))
                keep = {k: x for k, x in env.items() if alias_like(x, k)}
                best[tuple(sorted(keep.items()))] = keep
            for keep in best.values():
                solved, placed = main_loop(repo, rep, P, g, main, roles_of(keep, names), mode, fmt)
                rep.saw('solves', solved)
                rep.saw('cells', placed)
                rep.need(solved and placed, 'the loop of solves was not understood')
    fd(repo, rep, P)
    direction(repo, rep, P)
    dispatch(repo, rep, P)


def alias_like(x, name):
    """what only gives something of the caller or the model a name"""
    y = x
    while y[0] == 'attr':
        y = y[1]
    return y[0] in ('self', 'param', 'const') or y == T.SELF or x[0] == 'call' and ext_tail(x[1]) == '_mode' or x[0] == 'eq'


def roles_of(keep, names):
    env = dict(keep)
    for n in names:
        env.setdefault(n, ('param', n))
    return env
