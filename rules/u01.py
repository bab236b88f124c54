"""U01: unit conversions are physically exact and mean the same every time."""
import ast
import configparser
import math
import os

from sa import terms as T
from sa.events import Trace, traces
from sa.slices import alternatives, outer_loops, pn, reach, tr, unit
from sa.util import *

EXPLANATION = (
    'The conversion, product, quotient and power of units and quantities are computed symbolically from the source on every path and '
    'compared, as Laurent polynomials in the factors, offsets and values, with the affine maps they stand for; the conditions of each '
    'path must include that dimensions agree (conversions) or that no offset is lost (products). The routines that resolve unit names '
    'are followed for what they look up, store and cache. The unit library is read, every definition is evaluated with dimensional '
    'analysis and compared with its standard value.')
RULE = 'x -> ((x + d1)*s1)/s2 - d2 iff powers agree; factors and powers combine alike; name -> prefix*unit as defined; library == standard values'
ASSUMPTIONS = ['real arithmetic', 'eval of a unit expression applies the operators of its units']

# factor to (m kg s A K mol cd rad sr USD pax byte), powers, offset, relative tolerance
_B = ('m', 'kg', 's', 'A', 'K', 'mol', 'cd', 'rad', 'sr', 'USD', 'pax', 'byte')
BASE = dict(zip(('length', 'mass', 'time', 'current', 'temperature', 'amount', 'luminous_intensity', 'angle', 'solid_angle', 'money', 'passengers', 'digital_data'), _B))
PREFIX = dict(Y=1e24, Z=1e21, E=1e18, P=1e15, T=1e12, G=1e9, M=1e6, k=1e3, h=1e2, da=1e1, d=1e-1, c=1e-2, m=1e-3, u=1e-6, n=1e-9, p=1e-12, f=1e-15, a=1e-18, z=1e-21, y=1e-24,
              Ei=2. ** 60, Pi=2. ** 50, Ti=2. ** 40, Gi=2. ** 30, Mi=2. ** 20, Ki=2. ** 10)
PI, E0, C, H = math.pi, 1.60217653e-19, 299792458., 2 * math.pi * 1.05457168e-34
TIGHT, LOOSE = 1e-6, 2e-2
_day, _in, _gal = 86400., 0.0254, 3.785411784e-3
STD = {
    'g': (1e-3, 'kg'), 'Hz': (1, 's-1'), 'N': (1, 'kg m s-2'), 'Pa': (1, 'kg m-1 s-2'), 'J': (1, 'kg m2 s-2'), 'W': (1, 'kg m2 s-3'), 'C': (1, 'A s'),
    'V': (1, 'kg m2 s-3 A-1'), 'F': (1, 'A2 s4 kg-1 m-2'), 'ohm': (1, 'kg m2 s-3 A-2'), 'S': (1, 'A2 s3 kg-1 m-2'), 'Wb': (1, 'kg m2 s-2 A-1'), 'T': (1, 'kg s-2 A-1'),
    'H': (1, 'kg m2 s-2 A-2'), 'degC': (1, 'K', 273.15), 'lm': (1, 'cd sr'), 'lx': (1, 'cd sr m-2'), 'Bq': (1, 's-1'), 'Gy': (1, 'm2 s-2'), 'Sv': (1, 'm2 s-2'), 'kat': (1, 'mol s-1'),
    'min': (60, 's'), 'h': (3600, 's'), 'd': (_day, 's'), 'deg': (PI / 180, 'rad'), 'arc_minute': (PI / 10800, 'rad'), 'arc_second': (PI / 648000, 'rad'), 'ha': (1e4, 'm2'), 'L': (1e-3, 'm3'), 't': (1e3, 'kg'),
    'e': (E0, 'A s'), 'eV': (E0, 'kg m2 s-2'), 'Da': (1.66053886e-27, 'kg'), 'u': (1.66053886e-27, 'kg'), 'ua': (1.49597870691e11, 'm'), 'c0': (C, 'm s-1'), 'hbar': (1.05457168e-34, 'kg m2 s-1'),
    'me': (9.1093826e-31, 'kg'), 'a0': (0.5291772108e-10, 'm'), 'Eh': (4.35974417e-18, 'kg m2 s-2'), 'bar': (1e5, 'kg m-1 s-2'), 'Ang': (1e-10, 'm'), 'NM': (1852, 'm'), 'b': (1e-28, 'm2'), 'kn': (1852 / 3600., 'm s-1'),
    'erg': (1e-7, 'kg m2 s-2'), 'dyn': (1e-5, 'kg m s-2'), 'P': (0.1, 'kg m-1 s-1'), 'St': (1e-4, 'm2 s-1'), 'sb': (1e4, 'cd m-2'), 'ph': (1e4, 'cd sr m-2'), 'Mx': (1e-8, 'kg m2 s-2 A-1'),
    'gauss': (1e-4, 'kg s-2 A-1'), 'Oe': (1e3 / (4 * PI), 'A m-1'), 'degK': (1, 'K'), 'nmi': (1852, 'm'), 'knot': (1852 / 3600., 'm s-1'),
    'inch': (_in, 'm'), 'ft': (0.3048, 'm'), 'mi': (1609.344, 'm'), 'ly': (9.4607304725808e15, 'm'), 'oz': (0.028349523125, 'kg'), 'lb': (0.45359237, 'kg'), 'lbm': (0.45359237, 'kg'), 'ton': (907.18474, 'kg'),
    'slug': (14.5939029, 'kg'), 'wk': (7 * _day, 's'), 'week': (7 * _day, 's'), 'a': (365.242199 * _day, 's'), 'yr': (365.242199 * _day, 's'), 'year': (365.242199 * _day, 's'),
    'mo': (365.242199 * _day / 12, 's'), 'month': (365.242199 * _day / 12, 's'), 'degR': (5 / 9., 'K'), 'degF': (5 / 9., 'K', 459.67),
    'tsp': (_gal / 768, 'm3'), 'tbsp': (_gal / 256, 'm3'), 'floz': (_gal / 128, 'm3'), 'cup': (_gal / 16, 'm3'), 'pt': (_gal / 8, 'm3'), 'qt': (_gal / 4, 'm3'), 'galUS': (_gal, 'm3'), 'galUK': (4.54609e-3, 'm3'),
    'lbf': (4.4482216152605, 'kg m s-2'), 'rev': (2 * PI, 'rad'), 'rpm': (2 * PI / 60, 'rad s-1'), 'rps': (2 * PI, 'rad s-1'), 'cal': (4.184, 'kg m2 s-2'), 'cali': (4.1868, 'kg m2 s-2'), 'Btu': (1055.05585262, 'kg m2 s-2'),
    'acre': (4046.8564224, 'm2'), 'hp': (745.7, 'kg m2 s-3'), 'atm': (101325, 'kg m-1 s-2'), 'torr': (101325 / 760., 'kg m-1 s-2'), 'psi': (6894.75729317, 'kg m-1 s-2'), 'psf': (6894.75729317 / 144, 'kg m-1 s-2'),
}
CONSTANTS = {  # measured values: the year of the adjustment matters little, the order of magnitude and the dimensions do
    'mu0': (4e-7 * PI, 'kg m s-2 A-2'), 'eps0': (8.8541878e-12, 'A2 s4 kg-1 m-3'), 'Grav': (6.674e-11, 'm3 kg-1 s-2'), 'Nav': (6.022e23, 'mol-1'), 'R': (8.3145, 'kg m2 s-2 K-1 mol-1'), 'V0': (22.414e-3, 'm3 mol-1'),
    'planck': (H, 'kg m2 s-1'), 'mp': (1.6726e-27, 'kg'), 'mn': (1.6749e-27, 'kg'), 'sigma': (5.6704e-8, 'kg s-3 K-4'), 'Ken': (1.3806e-23, 'kg m2 s-2'), 'Rinfinity': (1.0973731e7, 'm-1'), 're': (2.81794e-15, 'm'),
    'lambdac': (2.42631e-12, 'm'), 'lambdap': (1.32141e-15, 'm'), 'lambdan': (1.31959e-15, 'm'), 'mue': (9.28476e-24, 'A m2'), 'mup': (1.41061e-26, 'A m2'), 'mub': (9.27401e-24, 'A m2'), 'mun': (5.05078e-27, 'A m2'),
    'gammap': (2.67522e8, 'rad A s kg-1'), 'gammapc': (2.67515e8, 'rad A s kg-1'), 'phi0': (2.06783e-15, 'kg m2 s-2 A-1'), 'hme': (7.27389e-4, 'm2 s-1'),
}


def dims(text):
    d = {}
    for w in text.split():
        k = len(w.rstrip('-0123456789'))
        d[w[:k]] = int(w[k:] or 1)
    return d


# ---------------------------------------------------------------- the library
class U:
    def __init__(self, f, d, o=0.):
        self.f, self.d, self.o = f, {k: v for k, v in d.items() if v}, o


def value(node, env):
    if isinstance(node, ast.Expression):
        return value(node.body, env)
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
        return float(node.value) if not isinstance(node.value, int) else node.value
    if isinstance(node, ast.Name):
        return math.pi if node.id == 'pi' else env[node.id]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return -value(node.operand, env)
    if isinstance(node, ast.BinOp):
        a, b = value(node.left, env), value(node.right, env)
        if isinstance(node.op, ast.Pow):
            return U(a.f ** b, {k: v * b for k, v in a.d.items()}) if isinstance(a, U) else a ** b
        s = {ast.Mult: 1, ast.Div: -1}.get(type(node.op))
        if s and (isinstance(a, U) or isinstance(b, U)):
            a, b = (x if isinstance(x, U) else U(float(x), {}) for x in (a, b))
            if a.o or b.o:
                raise ValueError('offset')
            return U(a.f * b.f if s == 1 else a.f / b.f, {k: a.d.get(k, 0) + s * b.d.get(k, 0) for k in set(a.d) | set(b.d)})
        if s:
            return a * b if s == 1 else a / b
    raise ValueError('not a unit expression')


def library(repo, rep):
    path = os.path.join(repo.root, 'openmdao', 'units', 'unit_library.ini')
    rep.need(os.path.exists(path), 'unit_library.ini not found')
    cfg = configparser.RawConfigParser(strict=False)
    cfg.optionxform = str
    cfg.read(path)
    lines = open(path).read().splitlines()

    def at(name):
        return 'openmdao/units/unit_library.ini:%d' % next((i for i, l in enumerate(lines, 1) if l.startswith(name + ':') or l.startswith(name + ' ')), 1)
    for p, v in cfg.items('prefixes'):
        got = float(v.partition(',')[0])
        rep.ob('library/prefix ' + p, p not in PREFIX or abs(got / PREFIX[p] - 1) < 1e-12, 'the prefix %s stands for %g' % (p, got), at(p), 'library')
    have = {p for p, v in cfg.items('prefixes')}
    rep.ob('library/prefixes', have >= set(PREFIX), 'the prefixes %s are not defined' % sorted(set(PREFIX) - have), at('[prefixes]'), 'library')
    env = {}
    for kind, name in cfg.items('base_units'):
        rep.ob('library/base ' + kind, BASE.get(kind, name) == name, 'the base unit of %s is %s' % (kind, name), at(kind), 'library')
        env[name] = U(1., {name: 1})
    todo = list(cfg.items('units'))
    while todo:
        left = []
        for name, text in todo:
            data = [x.strip() for x in text.split(',')]
            try:
                if len(data) == 4:
                    b = value(ast.parse(data[1], mode='eval'), env)
                    env[name] = U(float(data[0]) * b.f, b.d, float(data[2]))
                elif len(data) == 2:
                    b = value(ast.parse(data[0], mode='eval'), env)
                    env[name] = U(b.f, b.d, b.o)
                else:
                    rep.ob('library/format ' + name, False, 'the definition of %s is not understood by the reader of the library' % name, at(name), 'library')
            except KeyError:
                left.append((name, text))
            except ValueError as e:
                rep.ob('library/format ' + name, False, 'the definition of %s is no unit expression' % name, at(name), 'library')
        if len(left) == len(todo):
            for name, text in left:
                rep.ob('library/resolves ' + name, False, 'the definition of %s refers to a unit that is not defined' % name, at(name), 'library')
            break
        todo = left
    for table, tol in ((STD, TIGHT), (CONSTANTS, LOOSE)):
        for name, std in table.items():
            f, d, o = (std + (0.,))[:3]
            u = env.get(name)
            rep.ob('library/defined ' + name, u is not None, 'the unit %s is not defined' % name, at('[units]'), 'library')
            if u is None:
                continue
            rep.ob('library/dimensions ' + name, u.d == dims(d), 'the unit %s has the dimensions %s' % (name, ' '.join('%s^%s' % p for p in sorted(u.d.items()))), at(name), 'library')
            t = 3e-4 if name == 'ly' else tol
            rep.ob('library/value ' + name, abs(u.f / f - 1) < t and u.o == o, 'the unit %s is %.10g base units with offset %g' % (name, u.f, u.o), at(name), 'library')
    rep.saw('library units', len(env))


# ---------------------------------------------------------------- formulas
SU, OU = T.SELF, ('param', 'other')
A = lambda b, n: ('attr', b, n)


def is_cls(t, name):
    return t[0] == 'call' and (t[1][0] == 'class' and t[1][1].endswith(':' + name) or t[1] == ('attr', T.SELF, '__class__'))


def powers(t, a, b=None):
    """the entry of the powers list as a term over the entries of the operands' lists"""
    def entry(x):
        if x[0] == 'sub' and x[2][0] == 'idx':
            return ('elem', x[1])
        return x
    if t == a:
        return ('elem', a)
    if t[0] == 'comp' and t[1] == 'list' and t[-1] is False and len(t[3]) == 1:
        return T.subst(t[2], entry)
    if t[0] == 'call' and ext_tail(t[1]) == 'list' and len(t[2]) == 1:
        return powers(t[2][0], a, b)
    if t[0] == 'call' and ext_tail(t[1]) == 'map' and len(t[2]) == 3 and t[2][0][0] == 'ext':
        op = {'add': '+', 'sub': '-'}.get(ext_tail(t[2][0]))
        return op and ('bin', op, ('elem', t[2][1]), ('elem', t[2][2]))
    return None


def simp(t):
    """pow(a, b) is a**b"""
    if t[0] == 'call' and ext_tail(t[1]) == 'pow' and len(t[2]) == 2:
        return ('bin', '**', t[2][0], t[2][1])
    if t[0] == 'call' and ext_tail(t[1]) == 'float' and len(t[2]) == 1:
        return t[2][0]
    return None


def eq(a, b):
    return T.same(T.subst(a, lambda x: simp(x) or x), T.subst(b, lambda x: simp(x) or x))


def known(facts, a, b):
    for k in (('eq', a, b), ('eq', b, a)):
        if k in facts:
            return facts[k]
    return None


def isunit(facts, t, name):
    r = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance' and k[2][0] == t and k[2][1][0] == 'class' and k[2][1][1].endswith(':' + name)]
    return r[0] if r else None


def results(repo, rep, cls, meth, calls=()):
    names, f = {meth}, repo.method(cls, meth)
    while f is None:         # another name of a method
        more = {s.value.id for s in cls.node.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) for t in s.targets if isinstance(t, ast.Name) and t.id in names} - names
        if not more:
            break
        names |= more
        f = next((m for m in (repo.method(cls, n) for n in sorted(more)) if m), None)
    rep.need(f is not None, '%s.%s not found' % (cls.name, meth))
    rep.fn(f.qualname)
    res, out, I = tr(repo, f, cls, calls=calls, cells=lambda c: True)
    rep.need(res, '%s.%s was not understood' % (cls.name, meth))
    return f, res


def units(repo, rep):
    cls = repo.cls('PhysicalUnit')
    # what a unit is made of
    f, res = results(repo, rep, cls, '__init__')
    for ev, facts, v, st in res:
        last = {e[1][2]: e[2] for e in ev if e[0] == 'set' and e[1][:2] == ('attr', T.SELF)}
        for a in ('factor', 'offset', 'powers'):
            t = last.get(a, T.NONE)
            if t[0] == 'call' and ext_tail(t[1]) in ('float', 'list', 'tuple') and len(t[2]) == 1:
                t = t[2][0]
            rep.ob('unit/' + a, t == ('param', a), 'the %s of a unit is %s' % (a, T.show(t)), where(f), 'units')
    P1, P2 = A(SU, 'powers'), A(OU, 'powers')
    # conversion
    X = ('param', ' x')
    d1, s1, d2, s2 = A(SU, 'offset'), A(SU, 'factor'), A(OU, 'offset'), A(OU, 'factor')
    want = ('bin', '-', ('bin', '/', ('bin', '*', ('bin', '+', X, d1), s1), s2), d2)
    for m in ('conversion_tuple_to', 'conversion_factor_to'):
        f, res = results(repo, rep, cls, m)
        o = pn(f)[0]
        ren = lambda t: T.subst(t, lambda x: OU if x == ('param', o) else x)
        for ev, facts, v, st in res:
            facts = {ren(k): x for k, x in facts.items()}
            v = ren(v)
            rep.ob(m + '/dimensions', known(facts, P1, P2) is True or any(x and k[0] == 'call' and ext_tail(k[1]) == 'is_compatible' for k, x in facts.items()), 'units of different dimensions are converted', where(f), 'conversion')
            if m == 'conversion_tuple_to':
                ok = v[0] == 'tuple' and len(v[1]) == 2
                rep.ob(m + '/form', ok, 'the conversion is %s' % T.show(v), where(f), 'conversion')
                if ok:
                    got = ('bin', '*', ('bin', '+', X, v[1][1]), v[1][0])
                    rep.ob(m + '/map', eq(got, want), '(x + %s) * %s is not the same quantity' % (T.show(v[1][1]), T.show(v[1][0])), where(f), 'conversion')
            else:
                rep.ob(m + '/map', eq(v, ('bin', '/', s1, s2)), 'the conversion factor is %s' % T.show(v), where(f), 'conversion')
    f, res = results(repo, rep, cls, 'is_compatible')
    for ev, facts, v, st in res:
        o = ('param', pn(f)[0])
        rep.ob('compatible', v in (('eq', P1, A(o, 'powers')), ('eq', A(o, 'powers'), P1)) or known(facts, P1, A(o, 'powers')) == (v == T.TRUE) and v in (T.TRUE, T.FALSE), 'units are compatible when %s' % T.show(v), where(f), 'conversion')
    # algebra
    for m in ('__mul__', '__rmul__', '__div__', '__truediv__', '__rdiv__', '__rtruediv__', '__pow__'):
        op = {'mul': '*', 'div': '/', 'pow': '**'}[m.strip('_').replace('true', '')[-3:]]
        swap = m.strip('_').startswith('r') and op == '/'
        f, res = results(repo, rep, cls, m)
        o = pn(f)[0]
        O = ('param', o)
        n = 0
        for ev, facts, v, st in res:
            w = where(f)
            isu = isunit(facts, O, 'PhysicalUnit')
            args = None
            if is_cls(v, 'PhysicalUnit'):
                names = ('names', 'factor', 'powers', 'offset')
                args = dict(zip(names, v[2]))
                args.update(dict(v[3]))
            rep.ob('unit %s/result' % op, args is not None and 'factor' in args and 'powers' in args, 'a unit %s something is %s' % (op, T.show(v)), w, 'algebra')
            if args is None:
                continue
            n += 1
            if not swap:
                rep.ob('unit %s/offset' % op, known(facts, d1, T.const(0)) is True or known(facts, d1, T.const(0.0)) is True, 'the offset of a unit is dropped', w, 'algebra')
            off = args.get('offset', T.const(0))
            rep.ob('unit %s/no offset' % op, off == T.const(0) or off == T.const(0.0) or eq(off, ('bin', '*', d1, O)), 'the result has the offset %s' % T.show(off), w, 'algebra')
            p = powers(args['powers'], P1, A(O, 'powers'))
            a, b = ('elem', P1), ('elem', A(O, 'powers'))
            if isu and op in '*/' and not swap:
                rep.ob('unit %s/other offset' % op, known(facts, A(O, 'offset'), T.const(0)) is True or known(facts, A(O, 'offset'), T.const(0.0)) is True, 'the offset of a unit is dropped', w, 'algebra')
                rep.ob('unit %s/factor' % op, eq(args['factor'], ('bin', op, s1, A(O, 'factor'))), 'the factor of a unit %s a unit is %s' % (op, T.show(args['factor'])), w, 'algebra')
                rep.ob('unit %s/powers' % op, p is not None and eq(p, ('bin', {'*': '+', '/': '-'}[op], a, b)), 'the dimensions of a unit %s a unit are %s' % (op, T.show(args['powers'])), w, 'algebra')
            elif op == '**':
                rep.ob('unit **/factor', eq(args['factor'], ('bin', '**', s1, O)), 'the factor of a power is %s' % T.show(args['factor']), w, 'algebra')
                integer = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance' and k[2][0] == O and mentions(k[2][1], lambda z: z == ('ext', 'int'))]
                if integer and integer[0]:
                    ok = p is not None and eq(p, ('bin', '*', a, O))
                else:
                    R = root_of(O)
                    p2 = p is not None and T.subst(p, lambda x: R if rounded(x, O) else x)
                    near = any(x and k[0] == 'lt' and mentions(k[1], lambda z: rounded(z, O)) and k[2][0] == 'const' and isinstance(k[2][1], float) and 0 < k[2][1] <= 1e-6 for k, x in facts.items())
                    divides = any(x and k[0] == 'call' and ext_tail(k[1]) == 'all' and mentions(k, lambda z: z[0] == 'bin' and z[1] == '%' and z[2] == a) for k, x in facts.items())
                    ok = p2 and near and divides and eq(p2, ('bin', '/', a, R))
                rep.ob('unit **/powers', bool(ok), 'the dimensions of a power are %s' % T.show(args['powers']), w, 'algebra')
            elif isu is not True:
                need = ('bin', op, O, s1) if swap else ('bin', op, s1, O)
                rep.ob('unit %s/number' % op, eq(args['factor'], need), 'the factor of a unit %s a number is %s' % (op, T.show(args['factor'])), w, 'algebra')
                rep.ob('unit %s/number powers' % op, p is not None and eq(p, ('un', '-', a) if swap else a), 'the dimensions of a unit %s a number are %s' % (op, T.show(args['powers'])), w, 'algebra')
        rep.need(n, 'PhysicalUnit.%s was not understood' % m)
    f, res = results(repo, rep, cls, '__eq__')
    O = ('param', pn(f)[0])
    for ev, facts, v, st in res:
        if v == T.FALSE or v[0] == 'const' and not v[1]:
            continue
        for a in ('factor', 'offset', 'powers'):
            rep.ob('unit equal/' + a, known(facts, A(SU, a), A(O, a)) is True or mentions(v, lambda z: z in (('eq', A(SU, a), A(O, a)), ('eq', A(O, a), A(SU, a)))), 'units with different %s are equal' % a, where(f), 'units')
    f, res = results(repo, rep, cls, 'is_dimensionless')
    for ev, facts, v, st in res:
        ok = v[0] == 'un' and v[1] == 'not' and v[2][0] == 'call' and ext_tail(v[2][1]) == 'any' and v[2][2] == (P1,) or v in (T.TRUE, T.FALSE) or mentions(v, lambda z: z == P1) and mentions(v, lambda z: z[0] == 'call' and ext_tail(z[1]) in ('all', 'any'))
        ok = ok or v[0] == 'eq' and v[1] == P1 and mentions(v[2], lambda z: z == ('list', (T.const(0),)))
        truth = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'any' and k[2] == (P1,)]
        nonzero = any(x and k == ('elem', P1) or not x and k in (('eq', ('elem', P1), T.const(0)), ('eq', T.const(0), ('elem', P1))) for k, x in facts.items())
        if v == T.TRUE:
            ok = truth == [False] or not truth and any(r[2] == T.FALSE for r in res) and not nonzero
        if v == T.FALSE:
            ok = truth == [True] or nonzero
        rep.ob('unit dimensionless', ok, 'a unit is dimensionless when %s' % T.show(v), where(f), 'units')


def root_of(o):
    return ('bin', '/', T.const(1.0), o)


def rounded(t, o):
    """the integer nearest to 1/o"""
    inv = lambda z: z[0] == 'bin' and z[1] == '/' and z[2][0] == 'const' and z[2][1] == 1 and z[3] == o
    return t[0] == 'call' and (ext_tail(t[1]) == 'int' and len(t[2]) == 1 and t[2][0][0] == 'call' and ext_tail(t[2][0][1]) in ('floor', 'round', 'rint') and mentions(t[2][0], inv)
                               or ext_tail(t[1]) == 'round' and len(t[2]) == 1 and inv(t[2][0]))


def quantities(repo, rep):
    cls = repo.cls('PhysicalQuantity')
    V, Un = A(SU, 'value'), A(SU, 'unit')
    CT = lambda t: t[0] == 'call' and ext_tail(t[1]) == 'conversion_tuple_to'

    def converted(t, unit_ok):
        """(self.value + offset) * factor of the conversion from self.unit to a unit"""
        cs = {x for x in T.subterms(t) if CT(x)}
        if len(cs) != 1:
            return False
        c = cs.pop()
        return c[1][1] == Un and len(c[2]) == 1 and unit_ok(c[2][0]) and eq(t, ('bin', '*', ('bin', '+', V, ('sub', c, T.const(1))), ('sub', c, T.const(0))))
    f, res = results(repo, rep, cls, 'convert_value')
    for ev, facts, v, st in res:
        rep.ob('quantity/convert', converted(v, lambda u: u == ('param', pn(f)[0])), 'a converted value is %s' % T.show(v), where(f), 'conversion')
    f, res = results(repo, rep, cls, 'convert_to_unit')
    found = lambda p: (lambda u: u[0] == 'call' and ext_tail(u[1]) == '_find_unit' and u[2] == (('param', p),))
    for ev, facts, v, st in results(repo, rep, cls, 'convert_to_unit', calls=('_find_unit',))[1]:
        val = st.heap.get(A(SU, 'value'), V)
        un = st.heap.get(A(SU, 'unit'), Un)
        rep.ob('quantity/convert to', converted(val, found(pn(f)[0])), 'after a conversion the value is %s' % T.show(val), where(f), 'conversion')
        rep.ob('quantity/convert unit', found(pn(f)[0])(un), 'after a conversion the unit is %s' % T.show(un), where(f), 'conversion')
    f, res = results(repo, rep, cls, 'in_units_of', calls=('_find_unit',))
    for ev, facts, v, st in res:
        ok = is_cls(v, 'PhysicalQuantity') and len(v[2]) == 2
        rep.ob('quantity/in units', ok and converted(v[2][0], found(pn(f)[0])) and found(pn(f)[0])(v[2][1]), 'a quantity in another unit is %s' % T.show(v), where(f), 'conversion')
    f = repo.method(cls, 'in_base_units')
    rep.fn(f.qualname)
    b = base_value(repo, f, cls)
    rep.ob('quantity/in base units', b is not None and eq(b, ('bin', '*', ('bin', '+', V, A(Un, 'offset')), A(Un, 'factor'))), 'the value in base units is %s' % (T.show(b) if b else 'unknown'), where(f), 'conversion')
    for m in ('__mul__', '__rmul__', '__div__', '__truediv__', '__rdiv__', '__rtruediv__', '__pow__'):
        op = {'mul': '*', 'div': '/', 'pow': '**'}[m.strip('_').replace('true', '')[-3:]]
        swap = m.strip('_').startswith('r') and op == '/'
        f, res = results(repo, rep, cls, m)
        O = ('param', pn(f)[0])
        norm = lambda t: T.subst(t, lambda x: simp(x) or x)
        for ev, facts, v, st in res:
            w = where(f)
            isq = isunit(facts, O, 'PhysicalQuantity')
            if isq:
                left, right = ((A(O, 'value'), A(O, 'unit')), (V, Un)) if swap else ((V, Un), (A(O, 'value'), A(O, 'unit')))
                val, un = ('bin', op, left[0], right[0]), ('bin', op, left[1], right[1])
                dl = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'is_dimensionless']
                if is_cls(v, 'PhysicalQuantity'):
                    ok = len(v[2]) == 2 and eq(v[2][0], val) and norm(v[2][1]) in (un, ('bin', op, un[3], un[2]) if op == '*' else un)
                else:
                    ok = dl == [True] and T.same(v, ('bin', '*', val, A(un, 'factor'))) or op == '*' and dl == [True] and T.same(v, ('bin', '*', val, A(('bin', '*', un[3], un[2]), 'factor')))
                rep.ob('quantity %s' % op, ok, 'a quantity %s a quantity is %s' % (op, T.show(v)), w, 'algebra')
            else:
                val = ('bin', op, O, V) if swap else ('bin', op, V, O)
                un = ('bin', '**', Un, O) if op == '**' else ('bin', '**', Un, T.const(-1)) if swap else Un
                ok = is_cls(v, 'PhysicalQuantity') and len(v[2]) == 2 and eq(v[2][0], val) and norm(v[2][1]) in (un, ('bin', '/', T.const(1), Un) if swap else un)
                rep.ob('quantity %s number' % op, ok, 'a quantity %s a number is %s' % (op, T.show(v)), w, 'algebra')
    # sums
    for m, s1, s2 in (('__add__', 1, 1), ('__radd__', 1, 1), ('__sub__', 1, -1), ('__rsub__', -1, 1)):
        f, res = results(repo, rep, cls, m)
        O = ('param', pn(f)[0])
        for ev, facts, v, st in res:
            cf = {x for x in T.subterms(v) if x[0] == 'call' and ext_tail(x[1]) == 'conversion_factor_to'}
            ok = is_cls(v, 'PhysicalQuantity') and len(v[2]) == 2 and v[2][1] == Un and len(cf) == 1
            if ok:
                c = cf.pop()
                ok = c[1][1] == A(O, 'unit') and c[2] == (Un,) and eq(v[2][0], ('bin', '+', ('bin', '*', T.const(s1), V), ('bin', '*', T.const(s2), ('bin', '*', A(O, 'value'), c))))
            rep.ob('quantity ' + m, ok, 'the result is %s' % T.show(v), where(f), 'algebra')
    for name, exact in (('convert_units', True), ('get_conversion_tuple', False)):
        f = next((x for x in repo.all_functions() if x.name == name and x.cls is None and x.module.name.endswith('units.units')), None)
        rep.need(f, name + ' not found')
        rep.fn(f.qualname)
        ps = pn(f)
        res, out, I = tr(repo, f, None, calls=('_find_unit', 'convert_to_unit', 'in_units_of', 'convert_value'), cells=lambda c: False)
        for ev, facts, v, st in res:
            if exact:
                q = [x for x in T.subterms(v) if is_cls(x, 'PhysicalQuantity')]
                ok = len(set(q)) == 1 and q[0][2] == (('param', ps[0]), ('param', ps[1]))
                conv = [e for e in ev if e[0] == 'call' and e[1] in ('convert_to_unit', 'in_units_of', 'convert_value')]
                arg = conv[-1][3][0] if conv and conv[-1][3] else T.NONE
                if arg[0] == 'call' and ext_tail(arg[1]) == '_find_unit':
                    arg = arg[2][0]
                ok = ok and len(conv) == 1 and conv[0][2][1] == q[0] and arg == ('param', ps[2]) and (v == A(q[0], 'value') if conv[0][1] == 'convert_to_unit' else v[0] == 'attr' and v[2] == 'value' or conv[0][1] == 'convert_value')
                rep.ob('convert_units', ok, 'converting a value gives %s' % T.show(v), where(f), 'conversion')
            else:
                src = None
                ok = CT(v) and len(v[2]) == 1 and v[2][0][0] == 'call' and ext_tail(v[2][0][1]) == '_find_unit' and v[2][0][2] == (('param', ps[1]),)
                s = v[1][1] if CT(v) and v[1][0] == 'attr' else T.NONE
                ok = ok and (s[0] == 'attr' and s[2] == 'unit' and is_cls(s[1], 'PhysicalQuantity') and s[1][2][-1] == ('param', ps[0]) or s[0] == 'call' and ext_tail(s[1]) == '_find_unit' and s[2] == (('param', ps[0]),))
                rep.ob('get_conversion_tuple', ok, 'the conversion is %s' % T.show(v), where(f), 'conversion')
    f, res = results(repo, rep, cls, '__init__', calls=('_find_unit',))
    for ev, facts, v, st in res:
        args = ('param', f.node.args.vararg.arg) if f.node.args.vararg else None
        un = st.heap.get(Un, T.NONE)
        two = un[0] == 'call' and ext_tail(un[1]) == '_find_unit' and args is not None and un[2] == (('sub', args, T.const(1)),)
        if two:
            rep.ob('quantity/new', st.heap.get(V) == ('sub', args, T.const(0)), 'a new quantity has the value %s' % T.show(st.heap.get(V, T.NONE)), where(f), 'units')
        else:
            rep.ob('quantity/new unit', un[0] == 'call' and ext_tail(un[1]) == '_find_unit', 'a new quantity has the unit %s' % T.show(un), where(f), 'units')


def base_value(repo, f, cls):
    """the value handed to the new quantity, from the statements outside the loop that names the units"""
    straight = [s for s in f.node.body if not isinstance(s, (ast.For, ast.If, ast.While))]
    res, out, I = tr(repo, unit(f, *straight), cls, cells=lambda c: False)
    vs = [v for ev, facts, v, st in res if is_cls(v, 'PhysicalQuantity')]
    return vs[0][2][0] if len(vs) == 1 and vs[0][2] else None


# ---------------------------------------------------------------- names
class Evals(Trace):
    def implicit_fault(self, I, st, node):
        return any(isinstance(x, ast.Subscript) for s in node.body for x in ast.walk(s))

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) == 'eval' and not any(e[0] == 'threw' and e[2][0] == args[0] for e in st.auto):
            I.excs.append((self.ev(st, ('threw', 'eval', args, I.loc(node)), I.loc(node)), ('exc', 'eval')))
        return Trace.on_call(self, I, st, fn, args, kwargs, node)


def table(t, name):
    return t[0] == 'attr' and t[2] == name or t[0] == 'global' and t[2] == name


def pieces(p, r):
    """p and r are the beginning and the rest of one name, cut at the same place"""
    if r[0] != 'sub' or r[2][0] != 'slice' or r[2][2:] != (T.NONE, T.NONE) or r[2][1][0] not in ('const', 'phi') or p[0] != 'sub' or p[1] != r[1]:
        return None
    k = r[2][1]
    return r[1] if p[2] == T.const(0) and k == T.const(1) or p[2][0] == 'slice' and p[2][1] in (T.NONE, T.const(0)) and p[2][2] == k and p[2][3] == T.NONE else None


def names(repo, rep):
    fs = {x.name: x for x in repo.all_functions() if x.cls is None and x.module.name.endswith('units.units')}
    f = fs.get('_find_unit')
    rep.need(f, '_find_unit not found')
    rep.fn(f.qualname)
    n = 0
    def looks(y):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in fs and y.func.id not in ('add_unit', 'eval'):
            return any(isinstance(z, ast.Attribute) and z.attr == 'prefixes' for g in reach(repo, fs[y.func.id]).values() for z in ast.walk(g.node))
        return isinstance(y, ast.Attribute) and y.attr == 'prefixes'
    loops = outer_loops(repo, f, looks, deep=False) or outer_loops(repo, f, looks)
    whole = []
    if not loops:     # the work on one name is in a helper
        whole = [(g, g) for g in reach(repo, f).values() if any(isinstance(y, ast.Attribute) and y.attr == 'prefixes' for y in ast.walk(g.node))]
    for g, loop in loops + whole:
        c = Evals(calls=('eval', 'add_unit', 'add'), cells=lambda c: c[0] == 'sub')
        c.havoc_containers = True
        res, out, I = traces(repo, g if loop is g else unit(g, loop), g.cls, client=c)
        cuts = set()
        for ev, facts, v, st in res:
            w = where(g, loop) if loop is not g else where(g)
            for e in ev:
                for t in (e[3] if e[0] == 'call' else e[1:3] if e[0] == 'set' else ()):
                    for x in T.subterms(t):
                        if x[0] == 'bin' and mentions(x, lambda z: z[0] == 'sub' and table(z[1], 'prefixes')):
                            sides = (x[2], x[3]) if x[2][0] == 'sub' and table(x[2][1], 'prefixes') else (x[3], x[2])
                            P, R = sides
                            whole_name = pieces(P[2], R[2]) if P[0] == 'sub' and R[0] == 'sub' and table(R[1], 'unit_table') else None
                            n += 1
                            rep.ob('prefix/product', x[1] == '*' and whole_name is not None, 'a prefixed unit is %s' % T.show(x), w, 'names')
                            if whole_name is None:
                                continue
                            cuts.update(y[1] for y in alternatives(R[2][2][1]) if y[0] == 'const')
                            rep.ob('prefix/name', e[0] == 'call' and e[3][0] == whole_name or e[0] == 'set' and e[1][2] == whole_name, 'a prefixed unit is defined under another name', w, 'names')
                            rep.ob('prefix/known', any(x_ and k[0] == 'in' and k[1] == P[2] and table(k[2], 'prefixes') for k, x_ in facts.items()) and any(x_ and k[0] == 'in' and k[1] == R[2] and table(k[2], 'unit_table') for k, x_ in facts.items()), 'a name is taken for a prefixed unit although it is none', w, 'names')
                            rep.ob('prefix/defined first', any(y[0] == 'threw' and y[2][0] == whole_name for y in ev) or any(not x_ and k[0] == 'in' and k[1] == whole_name and table(k[2], 'unit_table') for k, x_ in facts.items()), 'a defined unit is taken for a prefixed one', w, 'names')
                            # a unit found this way is not there when the next name is looked up, or takes no prefix
                            if e[0] == 'call' and e[1] == 'add_unit' or e[0] == 'set' and table(e[1][1], 'unit_table'):
                                marks = [y[2][1] for y in ev if y[0] == 'call' and y[1] == 'add' and y[3] and y[3][0] == whole_name] + [y[1][1] for y in ev if y[0] == 'set' and y[1][2] == whole_name and not table(y[1][1], 'unit_table')]
                                ok = any(not x_ and k[0] == 'in' and k[1] == R[2] and k[2] in marks for k, x_ in facts.items())
                                rep.ob('prefix/history', ok, 'whether a name is a prefixed unit depends on the units used before', w, 'names')
        rep.ob('prefix/lengths', {1, 2} <= cuts, 'prefixes of %s letters are not recognized' % sorted({1, 2} - cuts), where(g), 'names')
    rep.need(n, '_find_unit: prefixed units not found')
    # the cache and the result
    c = Evals(calls=('eval', 'add_unit', 'add'), cells=lambda c: c[0] == 'sub' and table(c[1], '_UNIT_CACHE'))
    c.havoc_containers = True
    res, out, I = traces(repo, f, None, client=c)
    U_ = ('param', pn(f)[0])
    for ev, facts, v, st in res:
        w = where(f)
        isu = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance' and k[2][1][0] == 'class' and k[2][1][1].endswith(':PhysicalUnit') and k[2][0] == v]
        if v[0] == 'get':
            v = ('sub', v[1], v[2])
        rep.ob('name/is a unit', isu == [True], 'something that is no unit is returned', w, 'names')
        ok = v == U_ or v[0] == 'call' and ext_tail(v[1]) == 'eval' or v[0] == 'sub' and table(v[1], '_UNIT_CACHE') and stripped(v[2]) == U_
        rep.ob('name/result', ok, 'a unit is found as %s' % T.show(v), w, 'names')
        for e in ev:
            if e[0] == 'set':
                rep.ob('name/cache', e[2][0] == 'call' and ext_tail(e[2][1]) == 'eval' and stripped(e[1][2]) == U_ and stripped(e[2][2][0]) == U_, 'a unit is remembered for %s as %s' % (T.show(e[1][2]), T.show(e[2])), e[3], 'names')
            if e[0] == 'call' and e[1] == 'eval' and len(e[3]) > 2:
                rep.ob('name/table', table(e[3][2], 'unit_table') or mentions(e[3][2], lambda z: table(z, 'unit_table')), 'a unit is looked up in %s' % T.show(e[3][2]), e[5], 'names')
    # definitions
    for nm in ('add_unit', 'add_offset_unit'):
        f = fs.get(nm)
        rep.need(f, nm + ' not found')
        rep.fn(f.qualname)
        c = Trace(calls=('eval', '_find_unit'), cells=lambda c: c[0] == 'sub' and table(c[1], 'unit_table'))
        c.havoc_containers = True
        res, out, I = traces(repo, f, None, client=c)
        ps = [('param', p) for p in pn(f)]
        n = 0
        for ev, facts, v, st in res:
            sets = [e for e in ev if e[0] == 'set']
            rep.ob(nm + '/kept', len(sets) == 1 and sets[0][1][2] == ps[0], 'a unit is not defined under its name', where(f), 'names')
            for e in sets:
                n += 1
                u = e[2]
                if nm == 'add_unit':
                    ok = u == ps[1] or u[0] == 'call' and ext_tail(u[1]) == 'eval' and u[2][0] == ps[1] and len(u[2]) > 2 and table(u[2][2], 'unit_table')
                else:
                    a = dict(zip(('names', 'factor', 'powers', 'offset'), u[2])) if is_cls(u, 'PhysicalUnit') else {}
                    if a:
                        a.update(dict(u[3]))
                    b = a.get('powers', T.NONE)
                    b = b[1] if b[0] == 'attr' and b[2] == 'powers' else T.NONE
                    ok = (b == ps[1] or b[0] == 'call' and ext_tail(b[1]) == '_find_unit' and b[2] == (ps[1],)) and eq(a['factor'], ('bin', '*', A(b, 'factor'), ps[2])) and a.get('offset') == ps[3]
                rep.ob(nm + '/value', ok, 'a unit is defined as %s' % T.show(u), e[3], 'names')
                got = ('get', e[1][1], ps[0])
                again = facts.get(('in', ps[0], e[1][1]))
                for k, x in facts.items():
                    if k[0] in ('is', 'eq') and T.NONE in k[1:3] and any(y[:3] == got[:3] for y in k[1:3]):
                        again = not x
                    elif k[:3] == got[:3]:
                        again = x
                old = {('sub', e[1][1], ps[0])} | {y for k in facts for y in T.subterms(k) if y[:3] == got[:3]}
                same = [k[1:3] for k, x in facts.items() if x and k[0] == 'eq']
                same += [p for a_, b_ in same if a_[0] == b_[0] == 'tuple' and len(a_[1]) == len(b_[1]) for p in zip(a_[1], b_[1])]
                if again is not False:
                    for a in ('factor', 'powers', 'offset'):
                        rep.ob('%s/again/%s' % (nm, a), again is not None and any({y[2] if y[0] == 'attr' else None for y in k} == {a} and any(y[0] == 'attr' and y[1] in old for y in k) for k in same), 'a defined unit is redefined with another %s' % a, e[3], 'names')
        rep.need(n, nm + ' was not understood')
    loading(repo, rep, fs)
    reader(repo, rep, fs)


def loading(repo, rep, fs):
    """a library is read into empty tables"""
    f = fs.get('import_library')
    rep.need(f, 'import_library not found')
    rep.fn(f.qualname)
    fresh = False
    for g in reach(repo, f).values():
        here = {n for x in ast.walk(g.node) if isinstance(x, ast.Global) for n in x.names}
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign) and '_UNIT_CACHE' in here and any(isinstance(t, ast.Name) and t.id == '_UNIT_CACHE' for t in x.targets):
                fresh = fresh or isinstance(x.value, ast.Dict) and not x.value.keys or isinstance(x.value, ast.Call) and getattr(x.value.func, 'id', None) == 'dict' and not x.value.args and not x.value.keywords
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'clear' and getattr(x.func.value, 'id', None) == '_UNIT_CACHE':
                fresh = True
    rep.ob('library read/cache', fresh, 'units of the previous library are remembered', where(f), 'names')
    n = 0
    for g in reach(repo, f).values():
        for loop in [x for x in ast.walk(g.node) if isinstance(x, ast.For)]:
            kind = {'prefixes', 'base_units'} & {y.value for y in ast.walk(loop.iter) if isinstance(y, ast.Constant)}
            if not kind:
                continue
            c = Trace(calls=('_new_unit', 'PhysicalUnit'), cells=lambda c: c[0] == 'sub')
            c.havoc_containers = True
            res, out, I = traces(repo, unit(g, loop), None, client=c)
            for ev, facts, v, st in res:
                item = lambda t, k: t[0] == 'sub' and t[2] == T.const(k) and t[1][0] == 'elem' and mentions(t[1], lambda z: z == T.const(next(iter(kind))))
                for e in ev:
                    if e[0] == 'set' and kind == {'prefixes'}:
                        n += 1
                        t = e[2]
                        ok = t[0] == 'call' and ext_tail(t[1]) == 'float' and len(t[2]) == 1 and t[2][0][0] == 'sub' and t[2][0][2] == T.const(0) and t[2][0][1][0] == 'call' and ext_tail(t[2][0][1][1]) in ('partition', 'split') and item(t[2][0][1][1][1], 1)
                        rep.ob('library read/prefix', item(e[1][2], 0) and ok, 'a prefix is defined as %s' % T.show(t), e[3], 'names')
                    if e[0] == 'call' and e[1] == '_new_unit':
                        n += 1
                        P = e[3][2] if len(e[3]) > 2 else T.NONE
                        ones = [y for y in ev if y[0] == 'set' and y[1][1] == P]
                        rep.ob('library read/base', len(e[3]) == 3 and item(e[3][0], 1) and e[3][1] in (T.const(1), T.const(1.0)), 'a base unit is made of %s' % ', '.join(map(T.show, e[3])), e[5], 'names')
                        rep.ob('library read/powers', P[0] not in ('param', 'attr', 'const') and (P[0] == 'comp' or len(ones) == 1 and ones[0][2] == T.const(1) and ones[0][1][2][0] == 'idx'), 'the powers of a base unit are %s' % T.show(P), e[5], 'names')
    rep.need(n >= 2, 'import_library was not understood')


def stripped(t):
    return t[1][1] if t[0] == 'call' and ext_tail(t[1]) == 'strip' and t[1][0] == 'attr' and not t[2] else t


def reader(repo, rep, fs):
    """the fields of a definition reach the parameters they are meant for"""
    f = fs.get('_update_library')
    rep.need(f, '_update_library not found')
    rep.fn(f.qualname)

    class Some(Trace):
        def on_call(self, I, st, fn, args, kwargs, node):
            if ext_tail(fn) in ('add_unit', 'add_offset_unit'):
                I.excs.append((self.ev(st, ('threw', ext_tail(fn), args + tuple(y for _, y in kwargs), I.loc(node)), I.loc(node)), ('raised', ('call', ('ext', 'NameError'), (), (), None))))
            return Trace.on_call(self, I, st, fn, args, kwargs, node)
    n = 0
    for g in reach(repo, f).values():
        if any(g.qualname in reach(repo, fs[x]) for x in ('_find_unit', 'add_unit', 'add_offset_unit')):
            continue
        for loop in [x for x in ast.walk(g.node) if isinstance(x, ast.For) and any(isinstance(y, ast.Call) and getattr(y.func, 'id', None) in ('add_unit', 'add_offset_unit') for y in ast.walk(x))]:
            c = Some(calls=('add_unit', 'add_offset_unit', 'add', 'append'), cells=lambda c: False)
            c.havoc_containers = True
            res, out, I = traces(repo, unit(g, loop), None, client=c)
            first = any(isinstance(y, ast.Attribute) and y.attr == 'items' for y in ast.walk(loop.iter))
            for ev, facts, v, st in res:
                for e in ev:
                    if e[0] != 'call' or e[1] not in ('add_unit', 'add_offset_unit'):
                        continue
                    n += 1
                    flds = [field(a) for a in e[3]]
                    if first:
                        want = ['name', 0, 1] if e[1] == 'add_unit' else ['name', 1, 0, 2, 3]
                        rep.ob('definition/' + e[1], flds[:4] == want[:4][:len(flds)] and len(flds) >= 2, 'the fields of a definition are used as %s' % flds, e[5], 'names')
                    else:
                        rep.ob('definition/retry ' + e[1], flds == (['name', 1, 2, 3, 4] if e[1] == 'add_offset_unit' else ['name', 1, 2])[:len(flds)] and len(flds) >= 2, 'the fields of a definition kept for later are used as %s' % flds, e[5], 'names')
                for e in ev:
                    if e[0] == 'threw' and first:
                        kept = [y for y in ev if y[0] == 'call' and y[1] in ('add', 'append')]
                        rep.ob('definition/later', len(kept) == 1 and kept[0][3] and kept[0][3][0][0] == 'tuple' and [field(a) for a in kept[0][3][0][1]] == [field(a) for a in e[2]], 'a definition that refers to a later one is not kept for later as it is', where(g, loop), 'names')
    rep.need(n, '_update_library was not understood')


def field(t):
    """which field of a definition"""
    while t[0] == 'call' and ext_tail(t[1]) in ('float', 'strip') and (t[2] or t[1][0] == 'attr'):
        t = t[2][0] if t[2] else t[1][1]
    if t[0] == 'sub' and t[2] == T.const(0) and t[1][0] == 'elem':
        return 'name'
    if t[0] == 'sub' and t[2][0] == 'const':
        return t[2][1]
    if t[0] == 'elem':
        return 'name'
    return T.show(t)


def check(repo, rep, tier):
    library(repo, rep)
    units(repo, rep)
    quantities(repo, rep)
    names(repo, rep)
