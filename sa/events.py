"""Event traces: the ordered stores, in-place updates and calls along every path of one routine."""
from . import terms as T
from .interp import Client, Interp
from .util import *


class Trace(Client):
    """auto = tuple of events
       ('set', cell, value, loc) | ('aug', op, cell, value, loc) | ('call', name, fn, args, kwargs, loc, result)"""
    max_states = 4000
    generic_loops = True

    def __init__(self, calls=(), stop=(), inline=None, throws=False, assume=None, keep=None, cells=None, iters=False, inplace=None, havoc=True):
        self.havoc_loops = havoc
        self._inplace = inplace
        self.iters = iters
        self.calls, self.stop, self._inline, self.throws, self._assume = set(calls), set(stop), inline, throws, assume
        self.keep = keep
        self._kept = {}
        self.cells = cells

    def keyfact(self, t):
        if self.keep is None:
            return True
        if t not in self._kept:
            self._kept[t] = self.keep(t)
        return self._kept[t]

    def assume(self, t):
        return self._assume(t) if self._assume else None

    def inline(self, I, fn, func):
        if func.name in self.stop or func.name in self.calls:
            return False
        if self._inline is not None:
            return self._inline(I, fn, func)
        return fn[0] == 'attr' and fn[1] == T.SELF or fn[0] in ('func', 'closure')

    def nothrow(self, I, st, fn, node):
        return not self.throws

    def implicit_fault(self, I, st, node):
        return self.throws

    def ev(self, st, e, loc):
        return st.setauto(st.auto + (e,), (loc, e[0]))

    def inplace(self, cell, old):
        return self._inplace is not None and self._inplace(cell, old)

    def on_iter(self, I, st, node, it):
        return self.ev(st, ('iter', it, I.loc(node)), I.loc(node)) if self.iters else st

    def on_store(self, I, st, cell, value, node):
        if self.cells is not None and not self.cells(cell):
            return st
        return self.ev(st, ('set', cell, value, I.loc(node)), I.loc(node))

    def on_aug(self, I, st, cell, old, op, value, node):
        c = cell if cell[0] != 'local' else old
        if self.cells is not None and not self.cells(c):
            return st
        return self.ev(st, ('aug', op, c, value, I.loc(node)), I.loc(node))

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm == 'fill' and fn[0] == 'attr' and len(args) == 1:
            cell = ('sub', fn[1], ('slice', T.NONE, T.NONE, T.NONE))
            return [(self.on_store(I, st, cell, args[0], node), T.NONE)]
        if nm in self.calls:
            r = ('call', fn, tuple(args), tuple(sorted(kwargs)), None)
            e = ('call', nm, fn, tuple(args), dict_t(kwargs), I.loc(node))
            return [(self.ev(st, e, I.loc(node)), r)]
        return None


def dict_t(kwargs):
    return tuple(sorted((k, v) for k, v in (kwargs.items() if isinstance(kwargs, dict) else kwargs)))


def traces(repo, f, cls=None, client=None, env=None, heap=None, facts=None, **kw):
    c = client or Trace(**kw)
    I, out = run(repo, c, f, self_cls=cls, env=env or {}, heap=heap or {}, facts=facts or {})
    res = []
    for st, v in out.ret:
        res.append((st.auto, st.facts, v, st))
    return res, out, I
