"""G01: optimizers are given the declared objective, constraints, bounds and gradients."""
import ast

from sa import terms as T
from sa.events import Trace, traces
from sa.slices import addends, in_context, nonempties, outer_loops, pn, reach, same_sum, starts_at, tr, unit
from sa.util import *

EXPLANATION = (
    'Dataflow from the declarations of a driver to the calls of the optimizer: every entry of every constraint is matched with the '
    'function the optimizer will call for it, whose result is computed symbolically from the very arguments it is registered with '
    'and must be limit minus value or value minus limit for exactly the limits declared; its gradient must be the row of that entry '
    'with the sign of the value. Design variables are cut from and written to the optimizer array at running offsets that advance by '
    'their own size; objective and constraints are read after the run that follows the last design variable set; failures on every '
    'path reach the fail flag.')
RULE = 'con(x) = s*(value - limit), grad = s*row(name)+entry; set all desvars -> run -> read; exception -> fail = 1'
ASSUMPTIONS = ['the optimizer calls the objective before the constraints at each design (scipy, pyoptsparse)', 'one generic design variable, constraint and entry per loop']
SCIPY = {'bounds': {'L-BFGS-B', 'TNC', 'SLSQP'}, 'constraints': {'COBYLA', 'SLSQP'}, 'gradient': {'CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'SLSQP'}}


def show(t):
    return T.show(t)[:120]


def sub(a, *ks):
    for k in ks:
        a = ('sub', a, T.const(k) if not isinstance(k, tuple) else k)
    return a


ALL = ('slice', T.NONE, T.NONE, T.NONE)


def calls_with(names):
    names = set(names)

    def has(x):
        return isinstance(x, ast.Call) and (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', None)) in names
    return has


PURE = ('range', 'isinstance', 'len')


def plain(t):
    """calls without effects are the same wherever they stand"""
    return T.subst(t, lambda x: x[:4] if x[0] == 'call' and len(x) > 4 and x[1][0] == 'ext' and ext_tail(x[1]) in PURE else x)


def plain_traces(res):
    """traces with such calls identified; those that decide one of them both ways are impossible"""
    for ev, facts, v, st in res:
        fs, ok = {}, True
        for k, x in facts.items():
            ok = ok and fs.setdefault(plain(k), x) == x
        if ok:
            yield [e[:1] + tuple(plain(x) if isinstance(x, tuple) and n < 5 else x for n, x in enumerate(e[1:], 1)) for e in ev], fs, plain(v), st


def entries_of(facts):
    """what counts over the entries of the loops entered"""
    ks = [k for k, x in nonempties(facts).items() if k[0] == 'call' and ext_tail(k[1]) == 'range' and x]
    return [('elem', k) for k in ks] + [('idx', ('upto', k[2][-1])) for k in ks if len(k[2]) == 1 or k[2][0] == T.const(0)]


def empty_loop(facts):
    return any(x is False and k[0] == 'call' and ext_tail(k[1]) == 'range' for k, x in nonempties(facts).items())


# ---------------------------------------------------------------- scipy
def prefixed(t):
    """string operations on 'prefix' + name"""
    def f(x):
        if x[0] == 'sub' and x[1][0] == 'bin' and x[1][1] == '+' and x[1][2][0] == 'const' and isinstance(x[1][2][1], str) and x[2][0] == 'slice' \
                and x[2][1] == T.const(len(x[1][2][1])) and x[2][2:] == (T.NONE, T.NONE):
            return x[1][3]
        return None
    return T.subst(t, lambda x: f(x) or x)


class Called(Trace):
    def assume(self, t):
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'startswith' and len(t[2]) == 1 and t[2][0][0] == 'const':
            b = t[1][1]
            if b[0] == 'bin' and b[1] == '+' and b[2][0] == 'const':
                return b[2][1].startswith(t[2][0][1])
            if b[0] == 'elem':
                return False
        return None


def constraint_value(repo, cls, meth, args):
    """[(facts, value)] of a function registered with args"""
    f = repo.method(cls, meth)
    ps = pn(f)
    env = {p: a for p, a in zip(ps[1:], args)}
    c = Called(calls=(), cells=lambda c: False)
    c.havoc_containers = True
    res, out, I = traces(repo, f, cls, client=c, env=env)
    return [({prefixed(k): x for k, x in facts.items()}, prefixed(v)) for ev, facts, v, st in plain_traces(res)], f


def scipy_constraints(repo, rep, cls, f):
    loops = outer_loops(repo, f, lambda x: isinstance(x, ast.Constant) and x.value == 'fun')
    loops += outer_loops(repo, f, lambda x: isinstance(x, ast.keyword) and x.arg == 'fun') if not loops else []
    rep.need(loops, 'ScipyOptimizer.run: the constraints handed to scipy were not found')
    CONS = ('attr', T.SELF, '_cons')
    n = 0
    for g, loop, pre in in_context(repo, f, loops):
        rep.fn(g.qualname)
        res, out, I = tr(repo, unit(g, *(pre + [loop])), cls, calls=('append',), cells=lambda c: c[0] == 'sub')
        for ev, facts, v, st in plain_traces(res):
            if empty_loop(facts) or facts.get(('nonempty', CONS)) is False:
                continue
            w = where(g, loop)
            rep.ob('constraints/all', facts.get(('nonempty', CONS)) is True, 'the constraints handed to the optimizer are not those of the driver', w, 'constraints')
            name = ('elem', CONS)
            meta = sub(CONS, name)
            entries = entries_of(facts)
            rows = [e for e in ev if e[0] == 'set' and e[1][1] == ('attr', T.SELF, 'con_idx')]
            rep.ob('constraints/row', all(e[1][2] == name for e in rows), 'the first row of a constraint is kept under another name', w, 'constraints')
            dicts = []
            for e in ev:
                if e[0] == 'call' and e[1] == 'append' and len(e[3]) == 1:
                    d = e[3][0]
                    fields = {x[1][2][1]: x[2] for x in ev if x[0] == 'set' and x[1][1] == d and x[1][2][0] == 'const'}
                    if d[0] == 'call' and d[2] and d[2][0][0] in ('list', 'tuple'):
                        fields = dict({p[1][0][1]: p[1][1] for p in d[2][0][1] if p[0] in ('tuple', 'list') and len(p[1]) == 2 and p[1][0][0] == 'const'}, **fields)
                    if d[0] == 'dict':
                        fields = dict({k[2][1]: plain(x) for k, x in st.heap.items() if k[0] == 'sub' and k[1] == d and k[2][0] == 'const'}, **fields)
                    if d[0] == 'call':
                        fields.update({k: x for k, x in d[3] if isinstance(k, str)})
                    if 'fun' in fields or 'type' in fields:
                        dicts.append((fields, e[5]))
            E, U, L = [('is', sub(meta, k), T.NONE) for k in ('equals', 'upper', 'lower')]
            for e_, u_, l_ in ((False, True, True), (True, False, True), (True, True, False), (True, False, False)):
                want = {E: e_, U: u_, L: l_}
                if any(facts.get(k, x) != x for k, x in want.items()):
                    continue
                n += 1
                case = 'equality' if not e_ else 'two-sided' if not u_ and not l_ else 'upper' if not u_ else 'lower'
                expected = sorted(['equals'] if not e_ else ['upper'] * (not u_) + ['lower'] * (not l_))
                got = []
                for fields, loc in dicts:
                    got += sense(repo, rep, cls, fields, loc, want, meta, name, entries, case)
                rep.ob('constraints/' + case, sorted(got) == expected, '%s constraint is handed over as %s' % (('an ' if case[0] in 'eu' else 'a ') + case, got), w, 'constraints')
    rep.need(n, 'ScipyOptimizer.run: no constraint understood')
    f = repo.method(cls, '_gradfunc')
    rep.fn(f.qualname)
    res, out, I = tr(repo, f, cls, calls=('calc_gradient',), cells=lambda c: c == ('attr', T.SELF, 'grad_cache'))
    for ev, facts, v, st in res:
        cg = [e for e in ev if e[0] == 'call']
        kept = [e for e in ev if e[0] == 'set']
        rep.ob('gradient/kept', len(cg) == 1 and bool(kept) and kept[-1][2][0] == 'call' and ext_tail(kept[-1][2][1]) == 'calc_gradient', 'the gradient of the constraints is not kept', where(f), 'gradient')
        for e in cg:
            lists = e[3][1:] and [x for s, x in addends(e[3][1])]
            rep.ob('gradient/of', bool(lists) and lists == [('attr', T.SELF, 'objs'), ('attr', T.SELF, 'cons')] and e[3][0] == ('attr', T.SELF, 'params'), 'the gradient is taken of %s' % show(e[3][1] if len(e[3]) > 1 else T.NONE), e[5], 'gradient')
            rep.ob('gradient/format', dict(e[4]).get('return_format', T.const('array')) == T.const('array'), 'the gradient is not an array', e[5], 'gradient')
        rep.ob('gradient/objective', v[0] == 'sub' and v[1][0] == 'call' and ext_tail(v[1][1]) == 'calc_gradient' and v[2] in (T.const(0), ('tuple', (T.const(0), ALL))), 'the gradient of the objective is %s' % show(v), where(f), 'gradient')


def sense(repo, rep, cls, fields, loc, want, meta, name, entries, case):
    """which limit a registered function stands for"""
    fun, args, typ, jac = (fields.get(k) for k in ('fun', 'args', 'type', 'jac'))
    typ = typ and typ[0] == 'const' and typ[1]
    if fun is None or fun[0] != 'attr' or fun[1] != T.SELF or args is None or args[0] not in ('tuple', 'list'):
        rep.need(False, 'a constraint is handed over in a way that is not understood')
    args = args[1]

    def value(meth):
        paths, f = constraint_value(repo, cls, meth, args)
        rep.fn(f.qualname)
        return [(fa, v) for fa, v in paths if all(fa.get(k, x) == x for k, x in want.items())], f
    got = set()
    paths, f = value(fun[2])
    for fa, v in paths:
        parts = addends(v)
        con = [(s, x) for s, x in parts if x[0] == 'sub' and x[1] == sub(('attr', T.SELF, 'con_cache'), name)]
        lim = [(s, x) for s, x in parts if (s, x) not in con]
        if len(parts) != 2 or len(con) != 1 or con[0][0] != -lim[0][0]:
            rep.ob('function/form', False, 'the value of a constraint for the optimizer is %s' % show(v), where(f), 'constraints')
            continue
        (cs, cv), (ls, lv) = con[0], lim[0]
        rep.ob('function/entry', cv[2] in entries, 'the entry of a constraint is %s' % show(cv[2]), where(f), 'constraints')
        arr = [x for k, x in fa.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance' and k[2][0] in (lv, lv[1])]
        base = lv
        if base[0] == 'sub' and base[2] in entries:
            base = base[1]
            rep.ob('function/limit entry', base[0] == 'sub' and (not arr or arr[0]), 'a scalar limit is indexed', where(f), 'constraints')
        else:
            rep.ob('function/limit entry', not arr or not arr[0], 'the entry of an array limit is not taken', where(f), 'constraints')
        key = base[2][1] if base[0] == 'sub' and base[1] == meta and base[2][0] == 'const' else None
        ok = key == 'equals' and typ == 'eq' or key == 'upper' and cs == -1 and typ == 'ineq' or key == 'lower' and cs == 1 and typ == 'ineq'
        rep.ob('function/sense', ok, 'a%s constraint (%s) is handed over as %s %s 0' % ('n equality' if case[0] == 'e' else ' ' + case, typ, show(v), '=' if typ == 'eq' else '>='), where(f), 'constraints')
        got.add((key, cs))
    if len(got) != 1:
        rep.ob('function/one', False, 'one constraint function stands for %s' % sorted(map(str, got)), where(f), 'constraints')
        return []
    key, cs = got.pop()
    if jac is not None:
        if jac[0] != 'attr' or jac[1] != T.SELF:
            rep.need(False, 'the gradient of a constraint is handed over in a way that is not understood')
        paths, g = value(jac[2])
        for fa, v in paths:
            s, row = addends(v)[0]
            ok = len(addends(v)) == 1 and row[0] == 'sub' and row[1] == ('attr', T.SELF, 'grad_cache')
            rep.ob('jacobian/form', ok, 'the gradient of a constraint is %s' % show(v), where(g), 'gradient')
            if not ok:
                continue
            rep.ob('jacobian/sign', s == cs, 'the gradient of a%s constraint has the opposite sign of its value' % ('n equality' if case[0] == 'e' else ' ' + case), where(g), 'gradient')
            r = row[2][1][0] if row[2][0] == 'tuple' and row[2][1][1:] == (ALL,) else row[2]
            need = sorted([(1, sub(('attr', T.SELF, 'con_idx'), name)), (1, args[1] if len(args) > 1 else T.NONE), (1, T.const(1))], key=repr)
            rep.ob('jacobian/row', sorted(addends(r), key=repr) == need and any(x in entries for _, x in addends(r)), 'the gradient of a constraint is row %s' % show(r), where(g), 'gradient')
    return [key]


def offsets(repo, rep, f, cls, has, what, calls=()):
    """slices at running offsets: [P:P+size], P advances by size, and starts at 0"""
    n = 0
    for g, loop in outer_loops(repo, f, has):
        body = loop.body
        res, out, I = tr(repo, unit(g, *body), cls, calls=calls, cells=lambda c: c[0] == 'sub')
        for ev, facts, v, st in plain_traces(res):
            if empty_loop(facts):
                continue
            ts = []
            for e in ev:
                ts += [e[1], e[2]] if e[0] == 'set' else list(e[3]) if e[0] == 'call' else []
            sl = [x for t in ts for x in T.subterms(t) if x[0] == 'slice' and mentions(x, lambda z: z == T.const('size'))]
            at = [e[2] for e in ev if e[0] == 'set' and e[1][1] == ('attr', T.SELF, 'con_idx')]
            for x in sl + [('slice', y, None, None) for y in at]:
                n += 1
                w = where(g, loop)
                lo, hi = x[1], x[2]
                if lo[0] != 'param':
                    rep.ob(what + '/offset', False, 'a %s is cut at %s' % (what, show(lo)), w, 'offsets')
                    continue
                end = st.env.get(lo[1], lo)
                if hi is not None:
                    rep.ob(what + '/next', same_sum(end, hi), 'the next %s does not follow the one before: it starts at %s' % (what, show(end)), w, 'offsets')
                step = [(s, y) for s, y in addends(end) if y != lo]
                rep.ob(what + '/size', len(step) == 1 and step[0][0] == 1 and step[0][1][0] == 'sub' and step[0][1][2] == T.const('size') and step[0][1][1][0] in ('param', 'sub'), 'a %s takes %s entries' % (what, show(step[0][1]) if step else 'no'), w, 'offsets')
                rep.ob(what + '/first', starts_at(g, loop, lo[1]), 'the first %s does not start at 0' % what, w, 'offsets')
    return n


def set_run_read(rep, f, res, sets_all, what, getters=('get_objectives', 'get_constraints')):
    """all design variables set, then the model run once, then results read"""
    n = 0
    for ev, facts, v, st in res:
        names = [e[1] for e in ev if e[0] == 'call']
        runs = [k for k, x in enumerate(names) if x == 'solve_nonlinear']
        n += 1
        rep.ob(what + '/run', len(runs) == 1, 'the model is run %d times for one design' % len(runs), where(f), 'order')
        if not runs:
            continue
        for k, x in enumerate(names):
            if x == 'set_desvar':
                rep.ob(what + '/set first', k < runs[0], 'a design variable is set after the model was run', where(f), 'order')
            if x in getters:
                rep.ob(what + '/read after', k > runs[0], 'results are read before the model was run', where(f), 'order')
        for x in getters:
            rep.ob(what + '/' + x, x in names, 'the results of the run are not read again', where(f), 'order')
    rep.need(n, f.qualname + ' was not understood')


def scipy(repo, rep):
    cls = repo.cls('ScipyOptimizer')
    run_ = repo.method(cls, 'run')
    rep.fn(run_.qualname)
    scipy_constraints(repo, rep, cls, run_)
    # ---- design variables in and out of the array
    n = offsets(repo, rep, run_, cls, calls_with(['get_desvars']), 'design variable', calls=('append',))
    n += offsets(repo, rep, run_, cls, lambda x: isinstance(x, ast.Attribute) and x.attr == 'con_idx' or isinstance(x, ast.Constant) and x.value == 'fun', 'constraint', calls=('append',))
    f = repo.method(cls, '_objfunc')
    rep.fn(f.qualname)
    m = offsets(repo, rep, f, cls, calls_with(['set_desvar']), 'design variable', calls=('set_desvar',))
    rep.need(n and m, 'ScipyOptimizer: offsets of design variables not found')
    DV = ('attr', T.SELF, '_desvars')
    X = ('param', pn(f)[0])
    res, out, I = tr(repo, f, cls, calls=('set_desvar', 'solve_nonlinear', 'get_objectives', 'get_constraints', 'record_iteration'), cells=lambda c: c == ('attr', T.SELF, 'con_cache'))
    for ev, facts, v, st in res:
        sets = [e for e in ev if e[1] == 'set_desvar']
        full = facts.get(('nonempty', DV))
        if full is not None:
            rep.ob('objective/set', len(sets) == int(full), 'a design variable is set %d times' % len(sets), where(f), 'order')
        for e in sets:
            rep.ob('objective/value', e[3][0] == ('elem', DV) and mentions(e[3][1], lambda z: z == X), 'a design variable is set to %s' % show(e[3][1]), e[5], 'order')
        obj = [k for k, x in nonempties(facts).items() if k[0] == 'call' and ext_tail(k[1]) == 'get_objectives' and x]
        if obj:
            rep.ob('objective/returned', v == sub(obj[0], ('elem', obj[0])), 'the objective returned is %s' % show(v), where(f), 'order')
        kept = [e for e in ev if e[0] == 'set']
        rep.ob('objective/constraints', len(kept) == 1 and kept[0][2][0] == 'call' and ext_tail(kept[0][2][1]) == 'get_constraints', 'the constraints of a design are not kept for the optimizer', where(f), 'order')
        rec = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'record_iteration']
        rep.ob('objective/recorded', len(rec) == 1, 'a design is recorded %d times' % len(rec), where(f), 'order')
    set_run_read(rep, f, [r for r in res], None, 'objective')
    # ---- initial values and bounds
    n = 0
    for g, loop, pre in in_context(repo, run_, outer_loops(repo, run_, calls_with(['get_desvars']))):
        res, out, I = tr(repo, unit(g, *(pre + [loop])), cls, calls=('append', 'get_desvars'), cells=lambda c: c[0] == 'sub')
        for ev, facts, v, st in plain_traces(res):
            ds = [k for k, x in nonempties(facts).items() if x and k[0] == 'call' and ext_tail(k[1]) == 'get_desvars']
            if not ds or empty_loop(facts):
                continue
            name = ('elem', ds[0])
            init = [e for e in ev if e[0] == 'set' and e[1][2][0] == 'slice']
            n += 1
            rep.ob('initial/all', len(init) == 1 and init[0][2] == sub(ds[0], name), 'the initial value of a design variable is not handed over', where(g, loop), 'bounds')
            use = [x for k, x in facts.items() if k[0] == 'param']
            adds = [e for e in ev if e[0] == 'call' and e[1] == 'append']
            entries = entries_of(facts)
            if use:
                rep.ob('bounds/given', bool(adds) == use[0] and len(adds) <= 1, 'the bounds of a design variable are %s' % ('not handed over' if use[0] else 'handed over to an optimizer without bounds'), where(g, loop), 'bounds')
            meta = sub(DV, name)
            for e in adds:
                p = e[3][0]
                rep.ob('bounds/pair', p[0] == 'tuple' and len(p[1]) == 2, 'the bounds of a design variable are handed over as %s' % show(p), e[5], 'bounds')
                if p[0] != 'tuple' or len(p[1]) != 2:
                    continue
                for t, k in zip(p[1], ('lower', 'upper')):
                    arr = [x for c, x in facts.items() if c[0] == 'call' and ext_tail(c[1]) == 'isinstance' and c[2][0] == sub(meta, k)]
                    ok = t == sub(meta, k) and arr != [True] or t[0] == 'sub' and t[1] == sub(meta, k) and t[2] in entries and arr != [False]
                    rep.ob('bounds/' + k, ok, 'the %s bound of a design variable is handed over as %s' % (k, show(t)), e[5], 'bounds')
    rep.need(n, 'ScipyOptimizer.run: initial values not found')
    # ---- the call of scipy
    straight = [s for s in run_.node.body if not any(isinstance(x, ast.For) for x in ast.walk(s))]
    u = unit(run_, *straight)
    res, out, I = tr(repo, u, cls, calls=('minimize', 'solve_nonlinear', 'get_constraints', '_set_desvars', 'set_desvar', 'get_objectives', 'get_desvar_metadata', 'get_constraint_metadata'), cells=lambda c: c[0] == 'attr' and c[1] == T.SELF and c[2] in ('con_cache', 'params', 'objs', 'cons', '_problem', 'grad_cache'))
    n = 0
    OPT = lambda z: z[0] == 'sub' and z[2] == T.const('optimizer')
    for ev, facts, v, st in res:
        k = [j for j, e in enumerate(ev) if e[0] == 'call' and e[1] == 'minimize']
        if len(k) != 1:
            rep.ob('run/minimize', False, 'the optimizer is called %d times' % len(k), where(run_), 'call')
            continue
        n += 1
        e = ev[k[0]]
        a = dict(e[4])
        first = e[3][0] if e[3] else a.get('fun', T.NONE)
        rep.ob('run/objective', first == ('attr', T.SELF, '_objfunc'), 'the optimizer is given the objective %s' % show(first), e[5], 'call')
        rep.ob('run/method', OPT(a.get('method', T.NONE)), 'the optimizer called is %s' % show(a.get('method', T.NONE)), e[5], 'call')
        rep.ob('run/tol', a.get('tol', T.NONE)[0] == 'sub' and a['tol'][2] == T.const('tol'), 'the tolerance of the driver is not handed over', e[5], 'call')
        rep.ob('run/options', a.get('options') == ('attr', T.SELF, 'opt_settings'), 'the settings of the driver are not handed over', e[5], 'call')
        ps = a.get('constraints', T.NONE)
        rep.ob('run/constraints', ps[0] in ('list', 'param', 'mu', 'phi') or ps[0] == 'call', 'the constraints are not handed over', e[5], 'call')
        before = ev[:k[0]]
        r0 = [j for j, x in enumerate(before) if x[0] == 'call' and x[1] == 'solve_nonlinear']
        cc = [j for j, x in enumerate(before) if x[0] == 'set' and x[1][2] == 'con_cache']
        rep.ob('run/first', len(r0) == 1 and bool(cc) and cc[-1] > r0[-1], 'the constraints the optimizer starts from are not those of the initial run', e[5], 'call')
        for attr, getter in (('params', 'get_desvar_metadata'), ('objs', 'get_objectives'), ('cons', 'get_constraint_metadata')):
            ss = [x for x in before if x[0] == 'set' and x[1][2] == attr]
            ok = ss and (mentions(ss[-1][2], lambda z: z[0] == 'call' and ext_tail(z[1]) == getter) or mentions_attr(ss[-1][2], {'params': '_desvars', 'objs': '_objs', 'cons': '_cons'}[attr]))
            rep.ob('run/' + attr, bool(ok), 'the names the gradient is taken for are not those of the driver (%s)' % attr, e[5], 'call')
        rep.ob('run/problem', any(x[0] == 'set' and x[1][2] == '_problem' and x[2] == ('param', pn(run_)[0]) for x in before), 'the driver has no problem to differentiate', e[5], 'call')
        for kind, key in (('gradient', 'jac'), ('bounds', 'bounds')):
            val = a.get(key, T.NONE)
            given = val != T.NONE
            asked = [(c, x) for c, x in facts.items() if c[0] == 'in' and OPT(c[1])]
            lists = [(names_of(repo, run_, c[2]), x) for c, x in asked]
            ok = any(L is not None and (L >= SCIPY[kind]) and x == given for L, x in lists)
            rep.ob('run/' + kind, ok, 'whether the optimizer is given %s does not depend on whether it takes them' % ('a gradient' if kind == 'gradient' else 'bounds'), e[5], 'call')
            if given and kind == 'gradient':
                rep.ob('run/jac', val == ('attr', T.SELF, '_gradfunc'), 'the optimizer is given the gradient %s' % show(val), e[5], 'call')
        # afterwards
        after = ev[k[0] + 1:]
        s = [j for j, x in enumerate(after) if x[0] == 'call' and x[1] in ('_set_desvars', 'set_desvar')]
        r = [j for j, x in enumerate(after) if x[0] == 'call' and x[1] == 'solve_nonlinear']
        same = [x for c, x in facts.items() if mentions(c, lambda z: z[0] == 'attr' and z[2] == 'x' and mentions(z, lambda y: y[0] == 'call' and ext_tail(y[1]) == 'minimize'))]
        rep.ob('run/optimum', bool(s) and bool(r) and max(s) < min(r) or same == [True] and not s, 'the model is not left at the optimum that is reported', e[5], 'optimum')
        for j in s:
            if after[j][1] == '_set_desvars':
                x = after[j][3][0]
                rep.ob('run/optimum value', x[0] == 'attr' and x[2] == 'x' and x[1][0] == 'call' and ext_tail(x[1][1]) == 'minimize', 'after the optimization the design variables are set to %s' % show(x), after[j][5], 'optimum')
    rep.need(n, 'ScipyOptimizer.run: the call of minimize was not found')
    # which constraints are handed over at all
    for s in run_.node.body:
        if isinstance(s, ast.If) and any(isinstance(x, ast.Constant) and x.value == 'fun' for x in ast.walk(s)):
            L = names_of(repo, run_, s.test.comparators[0]) if isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], ast.In) else None
            rep.ob('run/which constraints', L is not None and L >= SCIPY['constraints'], 'an optimizer that takes constraints is not given any', where(run_, s), 'call')


def names_of(repo, f, t):
    """the members of a module-level list"""
    if isinstance(t, ast.AST):
        node = t
        if isinstance(t, ast.Name):
            node = next((n.value for n in f.module.tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == t.id), None)
    elif t[0] in ('list', 'tuple', 'set'):
        return {x[1] for x in t[1] if x[0] == 'const'}
    elif t[0] in ('global', 'modattr', 'name'):
        nm = t[-1]
        node = next((n.value for n in f.module.tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == nm), None)
    else:
        return None
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
        return {x.value for x in node.elts if isinstance(x, ast.Constant)}
    return None


# ---------------------------------------------------------------- pyOptSparse
ANALYSIS = ('raised', ('call', ('class', 'openmdao.core.system:AnalysisError'), (), (), None))


class Fails(Trace):
    """one call may raise; what is raised is kept in the trace"""
    fails = ()

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm in self.fails and not any(e[0] == 'threw' for e in st.auto):
            s = Trace.on_call(self, I, st, fn, args, kwargs, node)[0][0]
            I.excs.append((self.ev(s, ('threw', 'analysis', nm), I.loc(node)), ANALYSIS))
            I.excs.append((self.ev(s, ('threw', 'other', nm), I.loc(node)), ('raised', ('call', ('ext', 'RuntimeError'), (), (), None))))
        return Trace.on_call(self, I, st, fn, args, kwargs, node)


def kwargs_of(e, names):
    """arguments of a call event by name"""
    d = dict(zip(names, e[3]))
    d.update(dict(e[4]))
    return d


def call_of(t, name):
    """the term is a call of that name"""
    return t[0] == 'call' and ext_tail(t[1]) == name


def keys_of(t):
    """the collection whose keys are listed"""
    while t[0] == 'call' and ext_tail(t[1]) in ('list', 'keys', 'iterkeys', 'tuple', 'OrderedDict'):
        t = t[2][0] if t[2] else t[1][1]
    return t


def relevant_only(t, rel, indep):
    """the members of one collection that are in the other"""
    if t[0] == 'call' and ext_tail(t[1]) == 'intersection' and len(t[2]) == 1:
        return {t[1][1], t[2][0]} == {rel, indep}
    if t[0] == 'bin' and t[1] == '&':
        return mentions(t[2], lambda z: z in (rel, indep)) and mentions(t[3], lambda z: z in (rel, indep))
    return None if t[0] not in ('call', 'bin') else False


CONARGS = ('name', 'nCon', 'lower', 'upper', 'scale', 'linear', 'wrt', 'jac')
VARARGS = ('name', 'nVars', 'type', 'value', 'lower', 'upper')


def pyopt(repo, rep):
    cls = repo.cls('pyOptSparseDriver')
    run_ = repo.method(cls, 'run')
    rep.fn(run_.qualname)
    DV, CONS, OBJS = (('attr', T.SELF, x) for x in ('_desvars', '_cons', '_objs'))
    # ---- design variables
    n = 0
    for g, loop, pre in in_context(repo, run_, outer_loops(repo, run_, calls_with(['addVarGroup']))):
        res, out, I = tr(repo, unit(g, *(pre + [loop])), cls, calls=('addVarGroup', 'addVar', 'get_desvars'), cells=lambda c: False)
        for ev, facts, v, st in plain_traces(res):
            n += 1
            adds = [e for e in ev if e[1] == 'addVarGroup']
            coll = [k for k, x in nonempties(facts).items() if k == DV or call_of(k, 'get_desvars')]
            rep.ob('variables/all', len(coll) == 1 and len(adds) == int(nonempties(facts)[coll[0]]), 'a design variable is handed over %d times' % len(adds), where(g, loop), 'variables')
            for e in adds:
                a = kwargs_of(e, VARARGS)
                name = ('elem', coll[0]) if coll else T.NONE
                meta = sub(DV, name)
                rep.ob('variables/name', a.get('name') == name and a.get('nVars') == sub(meta, 'size'), 'a design variable is handed over as %s' % show(a.get('name', T.NONE)), e[5], 'variables')
                val = a.get('value', T.NONE)
                rep.ob('variables/value', val[0] == 'sub' and call_of(val[1], 'get_desvars') and val[2] == name, 'the initial value of a design variable is %s' % show(val), e[5], 'variables')
                for k in ('lower', 'upper'):
                    rep.ob('variables/' + k, a.get(k) == sub(meta, k), 'the %s bound of a design variable is %s' % (k, show(a.get(k, T.NONE))), e[5], 'bounds')
    rep.need(n, 'pyOptSparseDriver.run: design variables not found')
    # ---- objectives
    n = 0
    for g, loop, pre in in_context(repo, run_, outer_loops(repo, run_, calls_with(['addObj']))):
        res, out, I = tr(repo, unit(g, *(pre + [loop])), cls, calls=('addObj', 'get_objectives'), cells=lambda c: c[0] == 'sub' and c[1] == ('attr', T.SELF, 'sparsity'))
        for ev, facts, v, st in plain_traces(res):
            coll = [k for k, x in nonempties(facts).items() if k == OBJS or call_of(k, 'get_objectives')]
            adds = [e for e in ev if e[1] == 'addObj']
            n += 1
            rep.ob('objectives/all', len(coll) == 1 and len(adds) == int(nonempties(facts)[coll[0]]) and all(e[3][:1] == (('elem', coll[0]),) for e in adds), 'an objective is not handed over', where(g, loop), 'variables')
            for e in ev:
                if e[0] == 'set':
                    rep.ob('objectives/wrt', coll and e[1][2] == ('elem', coll[0]) and keys_of(e[2]) in (DV, ('attr', T.SELF, 'indep_list'), ('param', 'indep_list')), 'the objective is differentiated with respect to %s' % show(e[2]), e[3], 'gradient')
    rep.need(n, 'pyOptSparseDriver.run: objectives not found')
    # ---- constraints
    kinds, n = set(), 0
    for g, loop, pre in in_context(repo, run_, outer_loops(repo, run_, calls_with(['addConGroup']))):
        res, out, I = tr(repo, unit(g, *(pre + [loop])), cls, calls=('addConGroup', 'get_constraints', '_build_sparse'), cells=lambda c: c[0] == 'sub' and c[1] in (('attr', T.SELF, 'sparsity'), ('attr', T.SELF, 'active_tols')))
        for ev, facts, v, st in plain_traces(res):
            w = where(g, loop)
            coll = [k for k, x in nonempties(facts).items() if x and (k == CONS or call_of(k, 'get_constraints'))]
            if not coll:
                continue
            n += 1
            name = ('elem', coll[0])
            meta = sub(CONS, name)
            EQ = facts.get(('is', sub(meta, 'equals'), T.NONE))
            kw = dict(coll[0][3]) if coll[0][0] == 'call' else {}
            kind = kw.get('ctype', coll[0][2][0] if coll[0][0] == 'call' and coll[0][2] else T.const('all'))[1]
            kind = kind if kind != 'all' else {None: 'all', True: 'ineq', False: 'eq'}[EQ]
            rep.ob('constraint group/all', 'lintype' not in kw and not (coll[0][0] == 'call' and len(coll[0][2]) > 1), 'only some constraints are handed over', w, 'constraints')
            adds = [e for e in ev if e[0] == 'call' and e[1] == 'addConGroup']
            rep.ob('constraint group/once', len(adds) == 1, 'a constraint is handed over %d times' % len(adds), w, 'constraints')
            kinds.add(kind)
            linear = facts.get(sub(meta, 'linear'))
            rel = [x for e in adds for t in dict(e[4]).values() for x in T.subterms(t) if x[0] == 'sub' and x[1][0] == 'attr' and x[1][2] == 'relevant']
            for e in adds:
                a = kwargs_of(e, CONARGS)
                rep.ob('constraint group/name', a.get('name') == name and a.get('nCon') == sub(meta, 'size'), 'a constraint is handed over as %s of size %s' % (show(a.get('name', T.NONE)), show(a.get('nCon', T.NONE))), e[5], 'constraints')
                for k in ('lower', 'upper'):
                    need = sub(meta, 'equals' if kind == 'eq' else k)
                    rep.ob('constraint group/%s/%s' % (kind, k), a.get(k) == need, 'the %s limit of an %s constraint is %s' % (k, 'equality' if kind == 'eq' else 'inequality', show(a.get(k, T.NONE))), e[5], 'constraints')
                lin = a.get('linear', T.FALSE)
                if lin[0] != 'const':
                    lin = T.const(facts[lin]) if lin in facts else ('const', linear) if lin == sub(meta, 'linear') else lin
                rep.ob('constraint group/linear', lin == T.const(bool(linear)) and linear is not None, 'a %s constraint is declared %s' % ('linear' if linear else 'nonlinear', 'linear' if lin == T.TRUE else 'nonlinear'), e[5], 'gradient')
                if linear:
                    rep.ob('constraint group/jacobian', a.get('jac') == sub(('attr', T.SELF, 'lin_jacs'), name), 'the gradient of a linear constraint is %s' % show(a.get('jac', T.NONE)), e[5], 'gradient')
                wrt = a.get('wrt', T.NONE)
                indep = [x for x in T.subterms(wrt) if keys_of(x) in (DV, ('attr', T.SELF, 'indep_list'), ('param', 'indep_list'))]
                R = [x for x in T.subterms(wrt) if x[0] == 'sub' and x[1][0] == 'attr' and x[1][2] == 'relevant']
                good = wrt == T.NONE or bool(R) and R[0][2] == name and bool(indep) and relevant_only(wrt, R[0], indep[0]) is not False
                rep.ob('constraint group/wrt', good, 'a constraint is declared to depend on %s' % show(wrt), e[5], 'gradient')
                sp = [x for x in ev if x[0] == 'set' and x[1][1][2] == 'sparsity']
                rep.ob('constraint group/sparsity', len(sp) == 1 and sp[0][1][2] == name and sp[0][2] == wrt, 'a constraint is differentiated with respect to other design variables than it is declared to depend on', e[5], 'gradient')
            for e in ev:
                if e[0] == 'set' and e[1][1][2] == 'active_tols':
                    rep.ob('constraint group/active', e[1][2] == name and mentions(e[2], lambda z: z == meta) and mentions(e[2], lambda z: z == T.const('active_tol')), 'the active tolerance of a constraint is %s' % show(e[2]), e[3], 'gradient')
    rep.need(n, 'pyOptSparseDriver.run: constraints not found')
    rep.ob('constraint group/kinds', {'eq', 'ineq'} <= kinds, 'no constraints of kind %s are handed over' % ', '.join(sorted({'eq', 'ineq'} - kinds)), where(run_), 'constraints')
    # ---- straight part
    straight = [s for s in run_.node.body if not any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(s))]
    straight += [s for s in run_.node.body if s not in straight and not calls_in(s, ('addConGroup', 'addObj', 'addVarGroup')) and calls_in(s, ('set_desvar',))]
    straight.sort(key=lambda s: s.lineno)
    ATT = ('quantities', 'indep_list', 'lin_jacs', '_problem')
    adders = tuple(g.name for g in reach(repo, run_).values() if g.qualname != run_.qualname and calls_in(g.node, ('addConGroup', 'addObj', 'addVarGroup', '_build_sparse'))) + ('_build_sparse',)
    res, out, I = tr(repo, unit(run_, *straight), cls, stop=adders, calls=('Optimization', 'solve_nonlinear', 'get_objectives', 'get_constraints', 'calc_gradient', 'opt', '_tmp', 'getattr', 'set_desvar', 'getDVs'), cells=lambda c: c[0] == 'attr' and c[1] == T.SELF and c[2] in ATT)
    n = 0
    for ev, facts, v, st in plain_traces(res):
        n += 1
        w = where(run_)
        calls = [e for e in ev if e[0] == 'call']
        opt = [e for e in calls if e[1] == 'Optimization']
        rep.ob('problem/objective', len(opt) == 1 and ('attr', T.SELF, '_objfunc') in tuple(opt[0][3]) + tuple(x for _, x in opt[0][4]), 'the optimizer is given another objective function', w, 'call')
        have = []
        for e in ev:
            if e[0] == 'set' and e[1][2] == 'quantities':
                have = [(1, e[2])]
            elif e[0] == 'aug' and e[2][2] == 'quantities':
                have.append((1, e[3]))
        got = set()
        for _, t in [p for s, x in have for p in addends(x)]:
            k = keys_of(t)
            if call_of(k, 'get_objectives') or k == OBJS:
                got.add('objectives')
            elif call_of(k, 'get_constraints'):
                kw = dict(k[3])
                kw.update(zip(('ctype', 'lintype'), k[2]))
                ct, lt = kw.get('ctype', T.const('all'))[1], kw.get('lintype', T.const('all'))[1]
                for c in ('eq', 'ineq') if ct == 'all' else (ct,):
                    got.update((c, x) for x in (('linear', 'nonlinear') if lt == 'all' else (lt,)))
        rep.ob('gradient/quantities', {'objectives', ('eq', 'nonlinear'), ('ineq', 'nonlinear')} <= got, 'the gradient is not taken of %s' % sorted(map(str, {'objectives', ('eq', 'nonlinear'), ('ineq', 'nonlinear')} - got)), w, 'gradient')
        il = [e for e in ev if e[0] == 'set' and e[1][2] == 'indep_list']
        rep.ob('gradient/variables', bool(il) and (keys_of(il[-1][2]) == DV or call_of(keys_of(il[-1][2]), 'get_desvars')), 'the design variables are listed as %s' % show(il[-1][2] if il else T.NONE), w, 'variables')
        for e in ev:
            if e[0] == 'set' and e[1][2] == 'lin_jacs' and call_of(e[2], 'calc_gradient'):
                a, kw = e[2][2], dict(e[2][3])
                L = keys_of(a[1]) if len(a) > 1 else T.NONE
                rep.ob('gradient/linear', len(a) > 1 and keys_of(a[0]) == DV and call_of(L, 'get_constraints') and dict(L[3]) == {'lintype': T.const('linear')} and kw.get('return_format') == T.const('dict'), 'the gradient of linear constraints is taken of %s' % show(L), e[3], 'gradient')
        runs = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'solve_nonlinear']
        sets = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'set_desvar']
        dvs = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'getDVs']
        emptied = any(x is False and (keys_of(k) == DV or k == ('attr', T.SELF, 'indep_list')) for k, x in nonempties(facts).items())
        rep.ob('optimum/run', len(runs) == 2 and bool(dvs) and (emptied or bool(sets)) and all(runs[0] < k < runs[1] for k in sets + dvs), 'the model is not left at the optimum that is reported', w, 'optimum')
        for k in sets:
            e = ev[k]
            name, val = (tuple(e[3]) + (T.NONE, T.NONE))[:2]
            rep.ob('optimum/value', val[0] == 'sub' and call_of(val[1], 'getDVs') and val[2] == name, 'after the optimization a design variable is set to %s' % show(val), e[5], 'optimum')
            rep.ob('optimum/all', name[0] == 'elem' and (keys_of(name[1]) == DV or name[1] == ('attr', T.SELF, 'indep_list') or call_of(name[1], 'getDVs')), 'after the optimization the variable %s is set' % show(name), e[5], 'optimum')
    rep.need(n, 'pyOptSparseDriver.run was not understood')
    sens(repo, rep, cls, run_)
    pyopt_objective(repo, rep, cls)
    pyopt_gradient(repo, rep, cls)


def calls_in(s, names):
    return any(calls_with(names)(x) for x in ast.walk(s))


def sens(repo, rep, cls, f):
    """the optimizer is given the gradient function unless another method was asked for"""
    n = 0
    for g in [g for g in reach(repo, f).values()]:
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call):
                for k in c.keywords:
                    if k.arg == 'sens' and isinstance(k.value, ast.Attribute):
                        n += 1
                        rep.ob('gradient/function', k.value.attr == '_gradfunc', 'the optimizer is given the gradient function %s' % k.value.attr, where(g, c), 'call')
    rep.need(n, 'pyOptSparseDriver.run: the gradient function handed over was not found')


def pyopt_objective(repo, rep, cls):
    f = repo.method(cls, '_objfunc')
    rep.fn(f.qualname)
    c = Fails(calls=('set_desvar', 'solve_nonlinear', 'get_objectives', 'get_constraints', 'record_iteration', 'update'), cells=lambda c: c[0] == 'sub' and c[1] == ('attr', T.SELF, 'metadata'))
    c.fails = ('solve_nonlinear', 'get_objectives', 'get_constraints', 'record_iteration', 'set_desvar')
    c.havoc_containers = True
    res, out, I = traces(repo, f, cls, client=c)
    X = ('param', pn(f)[0])
    normal = []
    n = 0
    for ev, facts, v, st in plain_traces(res):
        n += 1
        w = where(f)
        threw = [e for e in ev if e[0] == 'threw']
        ok = v[0] == 'tuple' and len(v[1]) == 2
        rep.ob('objective/result', ok, 'the optimizer is answered %s' % show(v), w, 'failure')
        if not ok:
            continue
        fail = v[1][1]
        rep.ob('objective/fail', fail == T.const(1 if threw else 0) or fail == T.const(bool(threw)), 'the optimizer is told %s after %s' % ('failure' if fail == T.const(1) else show(fail), 'an error in ' + threw[0][2] if threw else 'a run without errors'), w, 'failure')
        marks = {}
        for e in ev:
            if e[0] == 'set':
                marks[e[1][2]] = e[2]
        if any(e[1] == 'solve_nonlinear' for e in ev if e[0] == 'call'):
            failed = bool(threw) and threw[0][1:] == ('analysis', 'solve_nonlinear')
            if failed or not threw:
                rep.ob('objective/mark', marks.get(T.const('success')) == T.const(int(not failed)), 'a run that %s is marked %s' % ('failed' if failed else 'succeeded', show(marks.get(T.const('success'), T.NONE))), w, 'failure')
        for e in ev:
            if e[0] == 'call' and e[1] == 'set_desvar':
                rep.ob('objective/value', e[3][0] == ('elem', ('attr', T.SELF, 'indep_list')) and e[3][1] == ('sub', X, e[3][0]) or mentions(e[3][1], lambda z: z == X) and e[3][0] == ('elem', X), 'a design variable %s is set to %s' % (show(e[3][0]), show(e[3][1])), e[5], 'order')
        if not threw:
            full = facts.get(('nonempty', ('attr', T.SELF, 'indep_list')), facts.get(('nonempty', X)))
            if full is not None:
                rep.ob('objective/set', len([e for e in ev if e[1] == 'set_desvar']) == int(full), 'a design variable is not set', w, 'order')
            obj = v[1][0]
            up = [e for e in ev if e[0] == 'call' and e[1] == 'update']
            rep.ob('objective/functions', call_of(obj, 'get_objectives') and any(call_of(e[3][0], 'get_constraints') and not e[3][0][2] and not e[3][0][3] for e in up if e[3]) or obj[0] in ('dict', 'call') and mentions(obj, lambda z: call_of(z, 'get_objectives')) and mentions(obj, lambda z: call_of(z, 'get_constraints')), 'the functions returned are %s' % show(obj), w, 'order')
            normal.append((ev, facts, v, st))
        for st_, e in out.exc:
            rep.ob('objective/raises', False, 'an error is not reported to the optimizer but raised', w, 'failure')
    rep.need(n and normal, 'pyOptSparseDriver._objfunc was not understood')
    set_run_read(rep, f, normal, None, 'objective')


def pyopt_gradient(repo, rep, cls):
    f = repo.method(cls, '_gradfunc')
    rep.fn(f.qualname)
    DVS, FUN = (('param', p) for p in pn(f))
    # what the gradient is taken of, and failures
    c = Fails(calls=('calc_gradient',), cells=lambda c: c[0] == 'sub')
    c.fails = ('calc_gradient',)
    c.havoc_containers = True
    res, out, I = traces(repo, f, cls, client=c)
    n = 0
    for ev, facts, v, st in plain_traces(res):
        w = where(f)
        threw = [e for e in ev if e[0] == 'threw']
        cg = [e for e in ev if e[0] == 'call' and e[1] == 'calc_gradient']
        ok = v[0] == 'tuple' and len(v[1]) == 2
        rep.ob('gradient/result', ok, 'the optimizer is answered %s' % show(v), w, 'failure')
        if not ok:
            continue
        n += 1
        fail = v[1][1]
        bad = bool(threw) or not cg
        rep.ob('gradient/fail', fail in (T.const(int(bad)), T.const(bad)), 'the optimizer is told %s after %s' % ('failure' if fail == T.const(1) else 'success', 'an error' if bad else 'a gradient without errors'), w, 'failure')
        for e in cg:
            a = kwargs_of(e, ('indep_list', 'unknown_list', 'mode', 'return_format', 'sparsity', 'inactives'))
            rep.ob('gradient/of', a.get('unknown_list') == ('attr', T.SELF, 'quantities') and keys_of(a.get('indep_list', T.NONE)) in (DVS, ('attr', T.SELF, 'indep_list')), 'the gradient is taken of %s with respect to %s' % (show(a.get('unknown_list', T.NONE)), show(a.get('indep_list', T.NONE))), e[5], 'gradient')
            rep.ob('gradient/format', a.get('return_format') == T.const('dict') and 'mode' not in a or a.get('mode') == T.const('auto') and a.get('return_format') == T.const('dict'), 'the gradient is not a dictionary', e[5], 'gradient')
            rep.ob('gradient/sparsity', a.get('sparsity') in (('attr', T.SELF, 'sparsity'), None), 'the gradient is taken for the dependencies %s' % show(a.get('sparsity', T.NONE)), e[5], 'gradient')
        if not threw and cg:
            rep.ob('gradient/returned', call_of(v[1][0], 'calc_gradient'), 'the gradient returned is %s' % show(v[1][0]), w, 'gradient')
        elif threw and threw[0][1] == 'analysis':
            # zeros of the right shape for every pair
            rows = [e for e in ev if e[0] == 'set' and call_of(e[2], 'zeros')]
            for e in rows:
                shp = e[2][2][0] if e[2][2] else T.NONE
                i, o = e[1][2], e[1][1][2] if e[1][1][0] == 'sub' else next((x[1][2] for x in ev if x[0] == 'set' and x[2] == e[1][1]), T.NONE)
                lens = [x[2][0] if call_of(x, 'len') or call_of(x, 'size') else x for x in shp[1]] if shp[0] == 'tuple' else []
                rep.ob('gradient/zeros', o == ('elem', FUN) and i == ('elem', DVS) and lens == [('sub', FUN, o), ('sub', DVS, i)], 'the gradient of %s with respect to %s has shape %s' % (show(o), show(i), show(shp)), e[3], 'failure')
            if facts.get(('nonempty', FUN)) and facts.get(('nonempty', DVS)):
                rep.ob('gradient/zeros given', bool(rows), 'no gradient is returned after an analysis error', w, 'failure')
    rep.need(n, 'pyOptSparseDriver._gradfunc was not understood')
    for st_, e in out.exc:
        rep.ob('gradient/raises', False, 'an error is not reported to the optimizer but raised', where(f), 'failure')
    # constraints that are left out because they are inactive
    m = 0
    for g, loop, pre in in_context(repo, f, outer_loops(repo, f, lambda x: isinstance(x, ast.Attribute) and x.attr == 'active_tols')):
        res, out, I = tr(repo, unit(g, *(pre + [loop])), cls, calls=('append',), cells=lambda c: c[0] == 'sub')
        TOLS = ('attr', T.SELF, 'active_tols')
        for ev, facts, v, st in plain_traces(res):
            if facts.get(('nonempty', TOLS)) is False or empty_loop(facts):
                continue
            name = ('elem', TOLS)
            con = sub(('attr', ('attr', T.SELF, 'opt_prob'), 'constraints'), name)
            adds = [e for e in ev if e[0] == 'call' and e[1] == 'append']
            CV = ('attr', con, 'value')
            idx = sorted({x for k in facts for x in T.subterms(k) if x[0] == 'sub' and x[1] == ('attr', con, 'lower') or x[0] == 'sub' and x[1] == ('attr', con, 'upper')}, key=repr)
            js = {x[2] for x in idx}
            rep.ob('inactive/entry', len(js) <= 1 and all(e[3][0] in js for e in adds), 'an entry is looked at for another', where(g, loop), 'inactive')
            if len(js) != 1:
                continue
            j = js.pop()
            m += 1
            val = ('elem', CV) if j == ('idx', CV) else ('sub', CV, j)
            lo, up = (('sub', ('attr', con, x), j) for x in ('lower', 'upper'))
            tols = [sub(TOLS, name), ('sub', sub(TOLS, name), j)]
            L, U = facts.get(('is', lo, T.NONE)), facts.get(('is', up, T.NONE))

            def away(b, sgn):
                """whether the value was found away from a bound by more than the tolerance"""
                for k, x in facts.items():
                    r = apart(k, x, val, b, tols, sgn)
                    if r is not None:
                        return r
                return None
            a, b = (True if L else away(lo, 1)), (True if U else away(up, -1))
            inactive = a is True and b is True
            known = inactive or a is False or b is False
            rep.ob('inactive/decided', known, 'whether a constraint is inactive is not decided from its distance to both bounds', where(g, loop), 'inactive')
            if known:
                rep.ob('inactive/entries', bool(adds) == inactive, 'an entry %s is %s' % ('away from both bounds' if inactive else 'close to a bound', 'left out of the gradient' if adds else 'kept'), where(g, loop), 'inactive')
            kept = [e for e in ev if e[0] == 'set']
            for e in kept:
                rep.ob('inactive/name', e[1][2] == name, 'the inactive entries of one constraint are kept for %s' % show(e[1][2]), e[3], 'inactive')
    rep.need(m, 'pyOptSparseDriver._gradfunc: inactive constraints not found')


def apart(k, x, val, b, tols, sgn):
    """a comparison of val - b (times sgn) with a tolerance: True when further away"""
    if k[0] == 'not':
        k, x = k[1], not x
    if k[0] not in ('cmp', 'lt', 'le', 'gt', 'ge', '<', '<=', '>', '>='):
        return None
    op, l, r = (k[1], k[2], k[3]) if k[0] == 'cmp' else (k[0], k[1], k[2])
    op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}.get(op, op)
    d = addends(l) + [(-s, t) for s, t in addends(r)]       # l - r op 0
    if len(d) != 3:
        return None
    d = {t: s for s, t in d}
    tol = [t for t in d if t in tols]
    if val not in d or b not in d or len(tol) != 1 or d[val] != -d[b]:
        return None
    if op in ('<', '<='):
        d = {t: -s for t, s in d.items()}
    # now: d > 0 (or >=)
    if d[val] == sgn and d[tol[0]] == -1:
        return x
    if d[val] == -sgn and d[tol[0]] == 1:
        return not x
    return None


# ---------------------------------------------------------------- what the driver answers
def driver(repo, rep):
    cls = repo.cls('Driver')
    f = repo.method(cls, 'get_constraints')
    rep.fn(f.qualname)
    CONS = ('attr', T.SELF, '_cons')
    name = ('elem', CONS)
    meta = sub(CONS, name)
    ps = pn(f)
    for ct in ('all', 'eq', 'ineq'):
        for lt in ('all', 'linear', 'nonlinear'):
            c = Trace(calls=('_get_distrib_var',), cells=lambda c: c[0] == 'sub')
            c.havoc_containers = True
            res, out, I = traces(repo, f, cls, client=c, env={ps[0]: T.const(ct), ps[1]: T.const(lt)})
            for ev, facts, v, st in res:
                if facts.get(('nonempty', CONS)) is False:
                    continue
                lin = facts.get(sub(meta, 'linear'))
                if lin is None:
                    lin = facts.get(('is', sub(meta, 'linear'), T.FALSE))
                    lin = None if lin is None else not lin
                eq = facts.get(('is', sub(meta, 'equals'), T.NONE))
                eq = None if eq is None else not eq
                got = [e for e in ev if e[0] == 'call']
                no = lt == 'linear' and lin is False or lt == 'nonlinear' and lin is True or ct == 'eq' and eq is False or ct == 'ineq' and eq is True
                yes = (lt == 'all' or lin is not None) and (ct == 'all' or eq is not None) and not no
                rep.ob('driver/%s/%s' % (ct, lt), yes and len(got) == 1 or no and not got, 'asked for %s %s constraints, the driver answers %s' % (ct, lt, 'without one of them' if yes else 'with others' if no else 'without looking at the constraint'), where(f), 'driver')
                for e in got:
                    rep.ob('driver/value', e[3][:2] == (name, meta) and e[3][2:3] == (T.const('constraint'),), 'the value of a constraint is read as %s' % show(e[3][0]), e[5], 'driver')
    for m, attr, kind in (('get_desvars', '_desvars', 'desvar'), ('get_objectives', '_objs', 'objective')):
        f = repo.method(cls, m)
        rep.fn(f.qualname)
        res, out, I = tr(repo, f, cls, calls=('_get_distrib_var',), cells=lambda c: c[0] == 'sub')
        coll = ('attr', T.SELF, attr)
        n = 0
        for ev, facts, v, st in res:
            if not any(e[0] == 'call' for e in ev) and facts.get(('nonempty', coll)) is not True:
                continue
            n += 1
            got = [e for e in ev if e[0] == 'call']
            rep.ob('driver/' + m, len(got) == 1 and got[0][3][:2] == (('elem', coll), sub(coll, ('elem', coll))), 'a variable is not read under its own name', where(f), 'driver')
        rep.need(n, 'Driver.%s was not understood' % m)
    f = repo.method(cls, 'calc_gradient')
    rep.fn(f.qualname)
    res, out, I = tr(repo, f, cls, calls=('calc_gradient', 'record_derivatives'), cells=lambda c: False)
    names = ('indep_list', 'unknown_list', 'mode', 'return_format', 'dv_scale', 'cn_scale', 'sparsity', 'inactives')
    for ev, facts, v, st in res:
        cg = [e for e in ev if e[1] == 'calc_gradient']
        rep.ob('driver/gradient', len(cg) == 1 and call_of(v, 'calc_gradient'), 'the gradient of the problem is not returned', where(f), 'driver')
        for e in cg:
            a = kwargs_of(e, names)
            for p in pn(f):
                rep.ob('driver/gradient ' + p, a.get(p) == ('param', p), 'the gradient is asked for with %s = %s' % (p, show(a.get(p, T.NONE))), e[5], 'driver')
            rep.ob('driver/gradient scale', a.get('dv_scale') == ('attr', T.SELF, 'dv_conversions') and a.get('cn_scale') == ('attr', T.SELF, 'fn_conversions'), 'the gradient is scaled with other factors than those of the driver', e[5], 'driver')


def check(repo, rep, tier):
    scipy(repo, rep)
    pyopt(repo, rep)
    driver(repo, rep)
