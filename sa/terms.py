"""Value numbering: hashable symbolic terms standing for run-time values, and an
algebraic normal form for comparing how two sites transform a value."""
from fractions import Fraction

TRUE = ('const', True)
FALSE = ('const', False)
NONE = ('const', None)
TOP = ('top',)
UNDEF = ('undef',)
SELF = ('self',)


def const(v):
    return ('const', v)


def is_const(t):
    return t[0] == 'const'


def attr(b, n):
    return ('attr', b, n)


def sub(b, i):
    return ('sub', b, i)


def path(*names):
    t = SELF
    for n in names:
        t = attr(t, n)
    return t


_size_cache = {}


def size(t):
    k = id(t)
    if not isinstance(t, tuple):
        return 1
    s = 1
    for x in t:
        if isinstance(x, tuple):
            s += size(x)
        elif isinstance(x, frozenset):
            s += sum(size(y) for y in x)
    return s


def alts(t, cap=64):
    """phi-free alternatives of a term (top-level and nested, bounded)."""
    if not isinstance(t, tuple):
        return [t]
    if t and t[0] == 'phi':
        out = []
        for a in sorted(t[1], key=repr):
            out.extend(alts(a, cap))
        return out[:cap]
    res = [()]
    for x in t:
        if isinstance(x, tuple):
            xs = alts(x, cap)
        else:
            xs = [x]
        res = [r + (y,) for r in res for y in xs][:cap]
    return res


def contains(t, pred):
    if not isinstance(t, (tuple, frozenset)):
        return False
    if isinstance(t, tuple) and t and isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred) for x in t)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            for y in subterms(x):
                yield y
    elif isinstance(t, frozenset):
        for x in t:
            for y in subterms(x):
                yield y


def subst(t, f):
    """bottom-up rewriting: f(term) -> term"""
    if isinstance(t, frozenset):
        return frozenset(subst(x, f) for x in t)
    if not isinstance(t, tuple):
        return t
    t2 = tuple(subst(x, f) for x in t)
    if t2 and isinstance(t2[0], str):
        return f(t2)
    return t2


def phi(terms):
    s = set()
    for t in terms:
        if t[0] == 'phi':
            s |= t[1]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    if TOP in s or len(s) > 8:
        return TOP
    return ('phi', frozenset(s))


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 12:
        return '...'
    d = depth + 1
    if k == 'const':
        return repr(t[1])
    if k == 'self':
        return 'self'
    if k in ('param', 'name', 'global'):
        return str(t[1])
    if k in ('ext', 'func', 'class') and len(t) > 1 and isinstance(t[1], str):
        return t[1].split(':')[-1].split('.')[-1]
    if k == 'attr':
        return show(t[1], d) + '.' + t[2]
    if k == 'sub':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if k == 'call':
        a = [show(x, d) for x in t[2]] + ['%s=%s' % (n, show(v, d)) for n, v in t[3]]
        return '%s(%s)' % (show(t[1], d), ', '.join(a))
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
    if k == 'un':
        return '%s%s' % (t[1], show(t[2], d))
    if k in ('lt', 'le', 'eq', 'is', 'in'):
        return '(%s %s %s)' % (show(t[1], d), k, show(t[2], d))
    if k == 'phi':
        return '{' + ' | '.join(sorted(show(x, d) for x in t[1])) + '}'
    if k == 'key':
        return 'key<%s>' % show(t[1], d)
    if k == 'elem':
        return 'elem<%s>' % show(t[1], d)
    if k == 'mu':
        return 'loop<%s>' % (t[2] if isinstance(t[2], str) else show(t[2], d))
    if k in ('tuple', 'list'):
        return '(' + ', '.join(show(x, d) for x in t[1]) + ')'
    return '%s%s' % (k, '(' + ', '.join(show(x, d) for x in t[1:] if isinstance(x, tuple)) + ')')


# ---------------------------------------------------------------- normal form
# Laurent polynomial: dict  monomial -> Fraction;  monomial = frozenset of (atom, power)

def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def _mmul(m1, m2):
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
        if d[a] == 0:
            del d[a]
    return frozenset(d.items())


def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def _freeze(p):
    return frozenset(p.items())


ONE = frozenset()


def poly(t, simp=None):
    """Laurent polynomial of a term; `simp(term)` may rewrite atoms (return term or None)."""
    if simp is not None:
        t2 = simp(t)
        if t2 is not None and t2 != t:
            return poly(t2, simp)
    k = t[0]
    if k == 'const' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        try:
            c = Fraction(t[1])
        except (OverflowError, ValueError):
            return {frozenset([(t, 1)]): Fraction(1)}
        return {ONE: c} if c else {}
    if k == 'bin':
        op = t[1]
        if op in '+-':
            return _padd(poly(t[2], simp), poly(t[3], simp), 1 if op == '+' else -1)
        if op == '*':
            return _pmul(poly(t[2], simp), poly(t[3], simp))
        if op == '/':
            d = poly(t[3], simp)
            return _pmul(poly(t[2], simp), _pinv(d))
        if op == '**' and t[3][0] == 'const' and isinstance(t[3][1], int) \
                and not isinstance(t[3][1], bool) and -4 <= t[3][1] <= 4:
            b = poly(t[2], simp)
            n = t[3][1]
            if n < 0:
                b = _pinv(b)
            r = {ONE: Fraction(1)}
            for _ in range(abs(n)):
                r = _pmul(r, b)
            return r
    if k == 'un' and t[1] == '-':
        return _padd({}, poly(t[2], simp), -1)
    if k == 'un' and t[1] == '+':
        return poly(t[2], simp)
    return {frozenset([(t, 1)]): Fraction(1)}


def _pinv(d):
    if len(d) == 1:
        (m, c), = d.items()
        return {frozenset((a, -p) for a, p in m): 1 / c}
    return {frozenset([(('poly', _freeze(d)), -1)]): Fraction(1)}


def same(a, b, simp=None):
    if a == b:
        return True
    pa, pb = poly(a, simp), poly(b, simp)
    if pa == pb:
        return True
    d = _padd(pa, pb, -1)
    return not d
