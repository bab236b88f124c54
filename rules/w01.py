"""W01: a step of a nonlinear solver stops at the bounds its outputs and states were given."""
import ast

from sa import terms as T
from sa.events import Trace, traces
from sa.repo import AnalysisBroken
from sa.slices import pn
from sa.util import *

EXPLANATION = (
    'The routine that shortens a step is interpreted for one generic entry of one generic variable.  The order in which the '
    'entry, its bounds, the end of the full step and the direction can lie is split into all its cases; in each case every '
    'branch of the routine is decided and the length it leaves the entry with is evaluated over the terms of the path.  '
    'Terms carry the shape they have (the shape of the variable, flat, a bound of either shape), and only flat ones may be '
    'read entry by entry.  Every place that adds a step to the outputs is then shown to add exactly the shortened step, '
    'for the point and the direction it was shortened for.')
RULE = 'inside: value + a*step = the full step, or the bound it would cross; outside: the bound, when it moves at all'
ASSUMPTIONS = ['the lower bound of an entry is not above its upper bound', 'the requested length of a step is positive']

S = T.SELF
INF = float('inf')
NAN = float('nan')
FLAT = ('ravel', 'flatten')
SAME = ('ravel', 'flatten', 'asarray', 'array', 'atleast_1d', 'reshape', 'copy', 'float', 'asanyarray', 'squeeze', 'asfarray', 'broadcast_to', 'full_like')


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else (INF if (a > 0) == (str(float(b))[0] != '-') else -INF)
    return a / b


def mul(a, b):
    if (a == 0 and abs(b) == INF) or (b == 0 and abs(a) == INF):
        return NAN
    return a * b


class Entry(object):
    """the values one entry's terms have in one case"""

    def __init__(self, alpha, me, duvec, lo, up, val, step, a0):
        self.alpha, self.me, self.duvec = alpha, me, duvec
        self.lo, self.up, self.val, self.step, self.a = lo, up, val, step, a0

    def vec(self, t):
        """whose values a term names: self, duvec or neither"""
        if t[0] == 'sub' and t[2][0] == 'elem' and t[1] in (self.me, self.duvec):
            return t[1], 'var'
        if t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == 'flat' and t[1][1] in (self.me, self.duvec):
            return t[1][1], 'flat'
        if t[0] == 'attr' and t[2] == 'val' and t[1][0] == 'sub' and t[1][1][0] == 'attr' and t[1][1][2] == '_dat' and t[1][1][1] in (self.me, self.duvec):
            return t[1][1][1], 'flat'
        if t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == 'vec' and t[1][1] in (self.me, self.duvec):
            return t[1][1], 'flat'
        return None

    def bound(self, t):
        if t[0] in ('get', 'sub') and t[2] in (T.const('lower'), T.const('upper')):
            return self.lo if t[2][1] == 'lower' else self.up
        return 0

    def is_bound(self, t):
        return t[0] in ('get', 'sub') and t[2] in (T.const('lower'), T.const('upper'))

    def is_alpha(self, t):
        while t[0] == 'sub':
            t = t[1]
        return t == self.alpha

    def ev(self, t):
        """value of a term for the entry; None when unknown"""
        if t[0] == 'const':
            return t[1]
        if self.is_bound(t):
            return self.bound(t)
        if self.is_alpha(t):
            return self.a
        v = self.vec(t)
        if v:
            return self.val if v[0] == self.me else self.step
        if t[0] == 'elem':
            return self.ev(t[1])
        if t[0] == 'sub':
            return self.ev(t[1])
        if t[0] == 'attr' and t[2] in ('flat', 'T', 'real'):
            return self.ev(t[1])
        if t[0] == 'bin':
            a, b = self.ev(t[2]), self.ev(t[3])
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return None
            op = t[1]
            if isinstance(a, bool) and isinstance(b, bool) and op in ('&', '|'):
                return (a and b) if op == '&' else (a or b)
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: mul(a, b), '/': lambda: div(a, b)}.get(op, lambda: None)()
        if t[0] == 'un':
            a = self.ev(t[2])
            if a is None:
                return None
            return {'-': lambda: -a, '+': lambda: a, 'not': lambda: not a, '~': lambda: not a}.get(t[1], lambda: None)()
        if t[0] == 'not':
            a = self.ev(t[1])
            return None if a is None else not a
        if t[0] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            a, b = self.ev(t[1]), self.ev(t[2])
            if a is None or b is None:
                return None
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[t[0]]
        if t[0] == 'cmp':
            a, b = self.ev(t[2]), self.ev(t[3])
            if a is None or b is None:
                return None
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}.get(t[1])
        if t[0] in ('and', 'or'):
            xs = [self.ev(x) for x in (t[1] if len(t) == 2 else t[1:])]
            if None in xs:
                return None
            return all(xs) if t[0] == 'and' else any(xs)
        if t[0] == 'call':
            n = ext_tail(t[1])
            if t[1][0] == 'attr' and t[1][1][0] != 'ext' and not t[2] and n in ('ravel', 'flatten', 'copy', 'item'):
                return self.ev(t[1][1])
            if n in SAME and t[2]:
                return self.ev(t[2][-1] if n == 'full_like' else t[2][0])
            if n == 'reshape' and t[1][0] == 'attr':
                return self.ev(t[1][1])
            xs = [self.ev(x) for x in t[2]]
            if n == 'nonzero' and xs:
                return xs[0]
            if None in xs or not xs:
                return None
            if n in ('minimum', 'fmin', 'min', 'amin') and len(xs) == 2:
                if n == 'fmin':
                    return xs[1] if xs[0] != xs[0] else xs[0] if xs[1] != xs[1] else min(xs)
                return NAN if n == 'minimum' and (xs[0] != xs[0] or xs[1] != xs[1]) else min(xs)
            if n in ('maximum', 'fmax', 'max', 'amax') and len(xs) == 2:
                return NAN if n == 'maximum' and (xs[0] != xs[0] or xs[1] != xs[1]) else max(xs)
            if n == 'where' and len(xs) == 3:
                return xs[1] if xs[0] else xs[2]
            if n == 'where' and len(xs) == 1:
                return xs[0]
            if n == 'clip' and len(xs) == 3:
                return max(min(xs[0], xs[2]), xs[1])
            if n in ('abs', 'fabs', 'absolute'):
                return abs(xs[0])
            if n == 'sign':
                return float((xs[0] > 0) - (xs[0] < 0))
            if n == 'isfinite':
                return xs[0] == xs[0] and abs(xs[0]) != INF
            if n == 'isnan':
                return xs[0] != xs[0]
            if n == 'isinf':
                return abs(xs[0]) == INF
            if n in ('logical_and', 'logical_or') and len(xs) == 2:
                return (xs[0] and xs[1]) if n == 'logical_and' else (xs[0] or xs[1])
            if n == 'logical_not':
                return not xs[0]
            if n in ('greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal') and len(xs) == 2:
                a, b = xs
                return {'greater': a > b, 'less': a < b, 'greater_equal': a >= b, 'less_equal': a <= b, 'equal': a == b, 'not_equal': a != b}[n]
            if n in ('subtract', 'multiply', 'divide', 'true_divide', 'add') and len(xs) == 2:
                a, b = xs
                return {'subtract': lambda: a - b, 'multiply': lambda: mul(a, b), 'divide': lambda: div(a, b), 'true_divide': lambda: div(a, b), 'add': lambda: a + b}[n]()
            if n == 'bool':
                return bool(xs[0])
            return None
        if t[0] == 'ext':
            n = t[1].split('.')[-1]
            return {'inf': INF, 'nan': NAN}.get(n)
        return None

    # ------------------------------------------------------------ shapes
    def shape(self, t):
        """'var' (shape of the variable), 'flat', 'bound' (scalar or array), 'scalar', None (not known), or raises Mixed"""
        if t[0] == 'const':
            return 'scalar'
        if self.is_bound(t):
            return 'bound'
        if self.is_alpha(t):
            return 'flat' if t == self.alpha or t[2][0] == 'slice' else None
        v = self.vec(t)
        if v:
            return v[1]
        if t[0] == 'elem' or t[0] == 'sub' and t[2][0] in ('idx', 'mu'):
            base = t[1]
            sh = self.shape(base)
            if sh in ('var', 'bound'):
                raise Mixed(t)
            return 'scalar'
        if t[0] == 'attr' and t[2] == 'flat':
            return 'flat'
        if t[0] == 'call':
            n = ext_tail(t[1])
            if n in FLAT:
                for x in t[2][:1]:
                    self.shape(x)
                return 'flat'
            if n == 'reshape':
                return 'flat' if t[2][-1:] in ((T.const(-1),),) else None
            if n in ('asarray', 'array', 'float', 'copy', 'abs', 'isfinite', 'sign', 'isnan', 'logical_not', 'atleast_1d') and t[2]:
                return self.shape(t[2][0])
            if n in ('broadcast_to', 'full_like'):
                return 'var'
            if n in ('minimum', 'maximum', 'where', 'fmin', 'fmax', 'logical_and', 'logical_or', 'divide', 'subtract', 'multiply', 'less', 'greater'):
                return self.mix([self.shape(x) for x in t[2]], t)
            return None
        if t[0] == 'bin':
            return self.mix([self.shape(t[2]), self.shape(t[3])], t)
        if t[0] in ('lt', 'le', 'eq', 'ne', 'gt', 'ge'):
            return self.mix([self.shape(t[1]), self.shape(t[2])], t)
        if t[0] == 'un':
            return self.shape(t[2])
        return None

    def mix(self, shs, t):
        shs = {x for x in shs if x not in ('scalar', None)}
        if shs <= {'bound'} or shs <= {'flat'} or not shs:
            return next(iter(shs), None)
        if 'flat' in shs:
            raise Mixed(t)
        return 'var'


class Mixed(Exception):
    pass


class Step(Trace):
    max_states = 4000
    unroll = 6

    def __init__(self, entry, f, **kw):
        self.f, self.wrong = f, []
        Trace.__init__(self, cells=lambda c: True, **kw)
        self.havoc_containers = True
        self.entry = entry

    def scalar(self, st):
        return any(k[0] == 'call' and k[1] == ('ext', 'isinstance') and x is True for k, x in st.facts.items())

    def now(self, st):
        e = self.entry
        x = Entry(e.alpha, e.me, e.duvec, e.lo, e.up, e.val, e.step, e.a)
        return play(x, st.auto)

    def on_load(self, I, st, cell, node):
        if cell[0] == 'sub' and self.entry.is_alpha(cell):
            if T.contains(cell[2], lambda z: z[0] == 'slice' or z == ('ext', 'slice')) and not T.contains(cell[2], lambda z: z[0] in ('idx', 'mu')):
                return cell
            if not at_entry(self.f, self.entry, cell[2] if cell[1] == self.entry.alpha else root_index(cell), False, {}) and not self.scalar(st):
                self.wrong.append(I.loc(node) if node is not None else None)
            x = self.now(st)
            return T.const(x.a) if x.a is not None else None
        return None

    def on_call(self, I, st, fn, args, kwargs, node):
        if fn == ('ext', 'len') and len(args) == 1:
            return None
        return Trace.on_call(self, I, st, fn, args, kwargs, node)

    def assume(self, t):
        e = self.entry
        if t[0] == 'is' and t[2] == T.NONE:
            if e.is_bound(t[1]):
                return e.bound(t[1]) is None
            return None
        if t[0] == 'in' and t[1] in (T.const('lower'), T.const('upper')):
            return True if (e.lo if t[1][1] == 'lower' else e.up) is not None else None
        if t[0] in ('get', 'sub') and t[2] in (T.const('remote'), T.const('pass_by_obj')) and t[1][0] != 'attr':
            return False
        if t[0] == 'attr' and t[2] in ('pbo', 'remote'):
            return False
        if t[0] == 'call' and t[1] == ('ext', 'isinstance'):
            return None
        if t[0] == 'call' and ext_tail(t[1]) in ('any', 'all', 'sum', 'count_nonzero'):
            x = t[2][0] if t[2] else t[1][1]
            v = e.ev(x)
            if v is None:
                return None
            return True if v and ext_tail(t[1]) != 'all' else None if ext_tail(t[1]) != 'all' or v else False
        if T.contains(t, lambda z: z == e.alpha) and not (t[0] in ('lt', 'le', 'eq', 'gt', 'ge', 'ne') and all(x[0] == 'const' or not T.contains(x, lambda z: z == e.alpha) for x in t[1:])):
            return None
        v = e.ev(t)
        return None if v is None else bool(v)


def play(x, ev):
    """the length an entry is left with after the stores of a path; None when it is not known"""
    for e in ev:
        if e[0] == 'set':
            cell, v = e[1], e[2]
        elif e[0] == 'aug':
            cell, v = e[2], ('bin', e[1], e[2], e[3])
        else:
            continue
        if not x.is_alpha(cell):
            continue
        take = True
        c = cell
        while c[0] == 'sub':
            m = True if c[2][0] == 'call' and c[2][1] == ('ext', 'slice') else x.ev(c[2]) if c[2][0] not in ('idx', 'slice', 'mu', 'bin', 'const', 'elem', 'tuple') or c[2][0] == 'bin' and c[2][1] in ('&', '|') else True
            if m is None and c[2][0] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'call'):
                x.a = None
                return x
            if m is False:
                take = False
            c = c[1]
        if take:
            x.a = x.ev(v)
            if x.a is None:
                return x
    return x


VALS = (-1.0, 0.0, 0.5, 1.0, 2.0)
STEPS = (-8.0, -2.0, -0.5, -0.25, 0.0, 0.25, 0.5, 2.0, 8.0)


def check(repo, rep, tier):
    c = repo.cls('SrcVecWrapper')
    f = repo.method(c, 'distance_along_vector_to_limit')
    rep.need(f, 'the routine that shortens a step was not found')
    for g in repo.all_functions():
        if g.name == f.name and g is not f:
            limit(repo, rep, g, g.cls, tier)
    limit(repo, rep, f, c, tier)
    steps(repo, rep, f)


def limit(repo, rep, f, cls, tier):
    rep.fn(f.qualname)
    p = pn(f)
    rep.need(len(p) == 2, 'the arguments of the routine that shortens a step changed')
    alpha, duvec = ('param', p[0]), ('param', p[1])
    here = where(f)
    seen = set()
    cases = 0
    for lo, up in ((0.0, 1.0), (None, 1.0), (0.0, None), (None, None)):
        for shift in (0.0, -1.0):
            for v in VALS:
                for d in STEPS:
                    for a0 in (1.0, 0.5):
                        e = Entry(alpha, S, duvec, None if lo is None else lo + shift, None if up is None else up + shift, v + shift, d, a0)
                        one(repo, rep, f, cls, e, here, seen)
                        cases += 1
    rep.saw('cases', cases)


def one(repo, rep, f, cls, e, here, seen):
    c = Step(e, f)
    res, out, I = traces(repo, f, cls, client=c)
    rep.ob('compared', not c.wrong, 'the length of one entry is compared with that of another one', c.wrong[0] if c.wrong and c.wrong[0] else here, 'limit')
    a0 = e.a
    n = 0
    for ev, facts, v, st in res:
        if any(k[0] == 'nonempty' and x is False for k, x in facts.items()):
            continue
        n += 1
        key = tuple(sorted((repr(k), repr(x)) for k, x in facts.items())) + tuple(repr(y[:3]) for y in ev)
        if key not in seen:
            seen.add(key)
            shapes(repo, rep, f, e, ev, facts, here)
            rep.ob('returned', v == e.alpha or e.is_alpha(v), 'what is returned is not the shortened step', here, 'limit')
        x = Entry(e.alpha, e.me, e.duvec, e.lo, e.up, e.val, e.step, a0)
        x = play(x, ev)
        a = x.a
        skipped = [k for k, y in facts.items() if k[0] == 'in' and k[1] in (T.const('remote'), T.const('pass_by_obj')) and y is True]
        if a is None:
            raise AnalysisBroken('the length of a step was not understood')
        if a != a or abs(a) == INF:
            rep.ob('finite', False, 'an entry that does not move is given a step of length inf or nan', here, 'limit')
            continue
        end, full = e.val + a * e.step, e.val + a0 * e.step
        lo, up = -INF if e.lo is None else e.lo, INF if e.up is None else e.up
        near = lambda p, q: abs(p - q) < 1e-9
        why = ' (a variable is left out because its metadata mentions %s)' % skipped[0][1][1] if skipped else ''
        if lo <= e.val <= up:
            rep.ob('inside/stays', lo - 1e-9 <= end <= up + 1e-9, 'a step leaves the bounds%s' % why, here, 'limit')
            if e.val in (lo, up):
                continue                 # may stay where it is
            want = min(max(full, lo), up)
            rep.ob('inside/full', near(end, want) or not lo - 1e-9 <= end <= up + 1e-9, 'a step that stays within the bounds is cut short', here, 'limit')
            rep.ob('inside/length', near(a, a0) or want != full or e.step == 0, 'a step that stays within the bounds is changed', here, 'limit')
        elif e.step != 0:
            b = lo if e.val < lo else up
            rep.ob('outside/back', near(end, b), 'an entry outside its bounds is not brought back to them%s' % why, here, 'limit')
    if not n:
        raise AnalysisBroken('no path through the routine that shortens a step')


def shapes(repo, rep, f, e, ev, facts, here):
    """entries are read from flat arrays, and lengths are stored where the entry is"""
    terms = [(k, here) for k in facts]
    for x in ev:
        if x[0] == 'set' and e.is_alpha(x[1]):
            terms += [(x[2], x[3])]
            index(repo, rep, f, e, x[1], x[2], x[3], facts)
        elif x[0] == 'aug' and e.is_alpha(x[2]):
            terms += [(x[3], x[4])]
            index(repo, rep, f, e, x[2], x[3], x[4], facts)
    for t, loc in terms:
        ok = True
        if not (t[0] == 'call' and t[1] == ('ext', 'isinstance')) and t[0] != 'nonempty':
            try:
                for s in T.subterms(t):
                    e.shape(s)
            except Mixed:
                ok = False
        rep.ob('shape', ok, 'entries are read from an array that has the shape of the variable', loc, 'limit')


def index(repo, rep, f, e, cell, value, loc, facts):
    """alpha[slice.start + j] or alpha[slice][..]"""
    idx = []
    c = cell
    while c[0] == 'sub':
        idx.append(c[2])
        c = c[1]
    idx.reverse()
    rep.saw('stores')
    ok = bool(idx) and at_entry(f, e, idx[0], len(idx) > 1 or has_vector(e, value), facts)
    rep.ob('stored', ok, 'the length of one entry is stored for another one', loc, 'limit')


def has_vector(e, v):
    try:
        return e.shape(v) in ('flat', 'var')
    except Mixed:
        return True


def start_of(e, t, k=0):
    """X._dat[name].slice[k]"""
    return t[0] == 'sub' and t[2] == T.const(k) and slice_of(e, t[1])


def slice_of(e, t):
    return t[0] == 'attr' and t[2] == 'slice' and t[1][0] == 'sub' and t[1][1][0] == 'attr' and t[1][1][2] == '_dat' and t[1][1][1] in (e.me, e.duvec) and t[1][2][0] == 'elem'


def at_entry(f, e, t, whole, facts):
    if t[0] == 'slice':
        return start_of(e, t[1], 0) and start_of(e, t[2], 1) and t[3] in (T.NONE, T.const(1))
    if t[0] == 'call' and t[1] == ('ext', 'slice'):
        a = t[2]
        return len(a) == 1 and a[0][0] == 'star' and slice_of(e, a[0][1]) or len(a) >= 2 and start_of(e, a[0], 0) and start_of(e, a[1], 1)
    if t[0] == 'bin' and t[1] == '+':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if start_of(e, a) and (b[0] == 'idx' or b[0] == 'mu' and counter(f, b) or b[0] == 'bin' and b[1] == '+' and b[2][0] == 'mu' and b[3][0] == 'const' and counter(f, b[2], -b[3][1])):
                return True
        return False
    if start_of(e, t):
        return any(k[0] == 'call' and k[1] == ('ext', 'isinstance') and x is True for k, x in facts.items())
    if t[0] in ('idx', 'elem') or t[0] == 'mu':
        # range(start, end)
        r = t[1] if t[0] in ('idx', 'elem') else None
        if r and r[0] == 'call' and ext_tail(r[1]) in ('range', 'arange') and len(r[2]) == 2:
            return start_of(e, r[2][0], 0) and start_of(e, r[2][1], 1)
    return False


def counter(f, mu, start=0):
    """a local that starts at nothing and is moved on by one at the end of every pass"""
    name = mu[2]
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and n.lineno == mu[1][0]:
            if any(isinstance(x, (ast.Continue, ast.Break)) for b in n.body for x in ast.walk(b)):
                return False
            incs = [b for b in n.body if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == name and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1]
            alls = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
            return len(incs) == 1 == len(alls) and first(f, n, name) == start
    return False


def first(f, loop, name):
    last = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and n.lineno < loop.lineno and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            if last is None or n.lineno > last.lineno:
                last = n
    try:
        return ast.literal_eval(last.value) if last is not None else None
    except ValueError:
        return None


# ---------------------------------------------------------------- the places that take a step


def steps(repo, rep, lim):
    users = []
    for g in repo.all_functions():
        if g is lim or g.cls is None or g.module.path and '/test' in g.module.path:
            continue
        if any(isinstance(n, ast.Attribute) and n.attr == lim.name for n in ast.walk(g.node)):
            users.append(g)
    rep.need(users, 'nothing shortens its steps')
    want = {'Newton'} | {c.name for c in linesearches(repo)}
    have = {g.cls.name for g in users}
    for w in sorted(want):
        k = repo.cls(w)
        g = repo.method(k, 'solve')
        rep.need(g, 'solve of %s not found' % w)
        takes(repo, rep, lim, g, k, w != 'Newton')
    rep.ob('users', bool(have), 'no solver shortens its steps', where(lim), 'steps')


def linesearches(repo):
    return [c for c in repo.all_classes() if any(b.name == 'LineSearch' for b in repo.mro(c)[1:])]


CALLS = ('children_solve_nonlinear', 'apply_nonlinear', 'solve', 'solve_linear', 'solve_nonlinear')


def takes(repo, rep, lim, f, cls, ls):
    rep.fn(f.qualname)
    names = pn(f)
    un = ('param', names[1])
    vec = ('attr', un, 'vec')
    whole = ('sub', vec, ('slice', T.NONE, T.NONE, T.NONE))
    cells = lambda c: c == vec or T.contains(c, lambda z: z == vec) or c[0] == 'sub' and c[2] == whole[2]
    keep = lambda t: False
    n = 0
    done = set()
    c = Trace(calls=(lim.name,) + CALLS, cells=cells, keep=keep)
    c.havoc_containers = True
    c.max_states = 20000
    res, out, I = traces(repo, f, cls, client=c)
    for ev, facts, v, st in res:
        key = repr([norm(x[:-1]) for x in ev])
        if key in done:
            continue
        done.add(key)
        rep.saw('paths')
        limit, base, filled, before = None, None, {}, {}
        stepped = None
        for e in ev:
            if e[0] == 'call' and e[1] == lim.name:
                a = dict(e[4])
                args = list(e[3])
                al = args[0] if args else a.get(pn(lim)[0])
                dr = args[1] if len(args) > 1 else a.get(pn(lim)[1])
                ok = e[2][0] == 'attr' and e[2][1] == un
                rep.ob('steps/of', ok, 'the step of another vector is shortened', e[5], 'steps')
                fresh = al is not None and (fresh_array(al) or norm(al) in filled)
                rep.ob('steps/length', fresh, 'a step starts from the lengths the last one was cut to', e[5], 'steps')
                limit = (norm(('call', e[2], e[3], e[4], None)), norm(al), norm(dr), e[5])
                filled = {}
            elif e[0] == 'call':
                if e[1] == 'solve' and e[2][0] == 'attr' and is_ls(e[2][1]):
                    handed(repo, rep, e, before, stepped, vec)
                if e[1] != 'solve_linear':
                    limit, base = None, None
            elif e[0] in ('set', 'aug'):
                cell, val, loc = (e[1], e[2], e[3]) if e[0] == 'set' else (e[2], e[3], e[4])
                if cell not in (vec, whole):
                    if cell[0] == 'sub' and cell[2] == whole[2]:
                        if e[0] == 'set' and val == vec:
                            if stepped is None:
                                before[norm(cell[1])] = True
                        elif e[0] == 'set':
                            filled[norm(cell[1])] = val
                            before.pop(norm(cell[1]), None)
                    elif root(cell) == vec:
                        rep.ob('steps/taken', False, 'a part of the outputs is moved without regard to bounds', loc, 'steps')
                    continue
                add = None
                if e[0] == 'aug':
                    add = val if e[1] in ('+', 'add') else ('?',)
                elif val[0] == 'bin' and val[1] == '+' and vec in (val[2], val[3]):
                    add = val[3] if val[2] == vec else val[2]
                elif val[0] == 'bin' and val[1] == '+' and ls and any(x[0] == 'param' for x in val[2:]) and base is None:
                    x, y = val[2:]
                    add = y if x[0] == 'param' else x
                    rep.ob('steps/from', False, 'a step is shortened for one point and taken from another', loc, 'steps')
                if add is None:
                    # going back to a point that was kept
                    kept = val[0] == 'param' or val[0] in ('attr', 'call', 'mu') and not T.contains(val, lambda z: z[0] == 'bin')
                    rep.ob('steps/taken', kept, 'the outputs are moved without regard to bounds: %s' % T.show(val)[:80], loc, 'steps')
                    base, limit = val, None
                    continue
                n += 1
                good = False
                if limit is not None and add[0] == 'bin' and add[1] == '*':
                    for a, b in ((add[2], add[3]), (add[3], add[2])):
                        a, b = norm(a), norm(b)
                        if a in (limit[0], limit[1]) and b in (('attr', limit[2], 'vec'),):
                            good = True
                rep.ob('steps/taken', good, 'the outputs are moved by something other than the shortened step', loc, 'steps')
                if ls:
                    rep.ob('steps/back', base is not None and base[0] == 'param', 'a shorter step is not taken from the point the search started at', loc, 'steps')
                stepped = loc
                limit = None
                base = None
    rep.need(n, 'no step was found in %s' % f.qualname)


def root(t):
    while t[0] == 'sub':
        t = t[1]
    return t


def root_index(t):
    while t[1][0] == 'sub':
        t = t[1]
    return t[2]


def is_ls(t):
    return t[0] == 'attr' and t[2] == 'line_search' or t[0] == 'phi' and any(is_ls(x) for x in t[1])


def handed(repo, rep, e, before, stepped, vec):
    """the line search is given the point before the step"""
    pos = None
    for c in linesearches(repo):
        g = repo.method(c, 'solve')
        p = pn(g)
        if 'base_u' in p:
            pos = p.index('base_u'), 'base_u'
    if pos is None:
        return
    a = dict(e[4])
    x = a.get(pos[1]) if pos[1] in a else e[3][pos[0]] if len(e[3]) > pos[0] else None
    rep.ob('search/start', x is not None and norm(x) in before and stepped is not None, 'the line search does not get the point the step was taken from', e[5], 'steps')


def fresh_array(t):
    if t[0] == 'call' and ext_tail(t[1]) in ('ones', 'full', 'full_like', 'ones_like', 'repeat', 'tile'):
        return True
    return t[0] == 'bin' and t[1] in ('*', '+') and any(fresh_array(x) for x in t[2:])


def norm(t):
    if not isinstance(t, tuple):
        return frozenset(norm(x) for x in t) if isinstance(t, frozenset) else t
    if t and t[0] == 'call' and len(t) == 5:
        return ('call', norm(t[1]), norm(t[2]), norm(t[3]), None)
    return tuple(norm(x) for x in t)
