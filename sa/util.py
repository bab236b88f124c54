"""Shared helpers for rules."""
import ast

from . import terms as T
from .interp import Client, Interp
from .repo import AnalysisBroken, ClassInfo, Func, dotted, relpath

NP_BIN = {'multiply': '*', 'divide': '/', 'true_divide': '/', 'add': '+', 'subtract': '-', 'power': '**'}


def np_simp(t):
    """rewrite numpy spellings of arithmetic into operators; drop copies and casts"""
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].startswith('numpy.'):
        nm = t[1][1].split('.')[-1]
        if nm in NP_BIN and len(t[2]) == 2:
            return ('bin', NP_BIN[nm], t[2][0], t[2][1])
        if nm == 'reciprocal' and t[2]:
            return ('bin', '/', ('const', 1.0), t[2][0])
        if nm == 'negative' and t[2]:
            return ('un', '-', t[2][0])
        if nm in ('array', 'asarray', 'atleast_1d', 'copy', 'asfarray', 'ascontiguousarray') and t[2]:
            return t[2][0]
    if t[0] == 'call' and t[1] == ('ext', 'float') and len(t[2]) == 1 and t[2][0][0] != 'const':
        return t[2][0]
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('copy', 'flatten', 'astype', 'ravel') \
            and t[1][1][0] != 'ext':
        return t[1][1]
    if t[0] == 'get':
        return ('sub', t[1], t[2])
    return None


def simp_all(t):
    """apply np_simp everywhere"""
    def f(x):
        y = np_simp(x)
        while y is not None and y != x:
            x = y
            y = np_simp(x)
        return x
    return T.subst(t, f)


def ext_tail(fn):
    """last identifier of a callee term"""
    if fn[0] == 'ext':
        return fn[1].split('.')[-1]
    if fn[0] == 'attr':
        return fn[2]
    if fn[0] in ('func', 'class'):
        return fn[1].split(':')[-1]
    return None


def attr_path(t):
    """('a','b','c') for self.a.b.c / x.a.b.c tails"""
    out = []
    while t[0] == 'attr':
        out.append(t[2])
        t = t[1]
    return tuple(reversed(out)), t


def mentions(t, pred):
    return T.contains(t, pred)


def mentions_attr(t, name):
    return T.contains(t, lambda x: x[0] == 'attr' and x[2] == name)


def run(repo, client, func, self_cls=None, **kw):
    I = Interp(repo, client)
    out = I.run(func, self_cls=self_cls, **kw)
    return I, out


def fname(func):
    return func.qualname


def where(func, node=None):
    return '%s:%d' % (relpath(func.module.path), getattr(node, 'lineno', None) or func.node.lineno)
