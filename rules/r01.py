"""R01: a design of experiments runs every case once and every distributed case is answered and accounted for."""
import ast

from sa import terms as T
from sa.interp import Client, _own_nodes
from sa.repo import AnalysisBroken
from sa.util import *

EXPLANATION = (
    'Message accounting.  Coordinator routines (the multiprocessing loop, the MPI master, the generic concurrent '
    'evaluator) are interpreted with the number of outstanding messages as automaton state: some counter of the '
    'routine must change by exactly the number of cases sent minus answers received around every loop, and the routine '
    'may only return when that counter is known to be zero; every answer is recorded once unless it reports a fatal '
    'error, after which no further case is sent; stop messages reach every worker.  Worker routines must answer each '
    'case they take exactly once on every path, exceptional ones included.  Local runs apply every design value of the '
    'case before the model runs, run it once, advance the case count once, and re-raise fatal errors; distribution '
    'predicates select every case for exactly one process; each generator yields one value per entry of each design '
    'variable drawn between that entry\'s own bounds.')
RULE = 'd(outstanding) == d(counter) around every loop, counter == 0 at return; one answer per case taken; one run per case'
ASSUMPTIONS = ['queues and communicators deliver every message once', 'a case generator yields each of its cases once']

STOPS = (('const', 'STOP'), T.NONE, ('tuple', (T.NONE, T.NONE)))


def badob(rep, key, msg, loc, rule):
    rep.ob(key, False, msg, loc, rule)


def is_send(fn, args):
    return fn[0] == 'attr' and fn[2] in ('put', 'send') and args and args[0] not in STOPS


def is_stop(fn, args):
    return fn[0] == 'attr' and fn[2] in ('put', 'send') and args and args[0] in STOPS


def is_recv(fn, args):
    return fn[0] == 'attr' and (fn[2] == 'recv' or fn[2] == 'get' and not args)


def names_counted(f):
    out = set()
    for n in ast.walk(f.module.tree):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.add(n.target.id)
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub)):
            for t in n.targets:
                if isinstance(t, ast.Name) and any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)):
                    out.add(t.id)
    return sorted(out)


def const_of(p):
    """value of a constant polynomial or None"""
    if not p:
        return 0
    if set(p) == {T.ONE}:
        return p[T.ONE]
    return None


def wval(w, env):
    """polynomial of a tracker (a,) or (a, b) meaning a-b"""
    if any(n not in env for n in w):
        return None
    p = T.poly(env[w[0]])
    if len(w) == 2:
        p = T._padd(p, T.poly(env[w[1]]), -1)
    return p


class Count(Client):
    """auto = (net, snapshot, pending answer, loops left, sent) since the last loop boundary"""
    max_states = 6000
    generic_loops = True
    havoc_loops = True

    def __init__(self, f, assume=None, stop=()):
        self.names = names_counted(f)
        self.trackers = [(a,) for a in self.names] + [(a, b) for a in self.names for b in self.names if a != b]
        self.fail = {w: [] for w in self.trackers}
        self.drains = {}
        self.bad = []
        self.sends = self.recvs = self.stops = self.records = 0
        self._assume = assume
        self.stopset = set(stop)
        self.root = f
        self.term_flags, self.send_flags = [], []
        self.case_counts = []
        self.ids, self.id_steps = [], []

    def init_auto(self):
        return (0, (), None, frozenset(), 0)

    def assume(self, t):
        return self._assume(t) if self._assume else None

    def inline(self, I, fn, func):
        return func.name not in self.stopset and (fn[0] == 'attr' and fn[1] == T.SELF or fn[0] in ('func', 'closure'))

    def nothrow(self, I, st, fn, node):
        return ext_tail(fn) != 'next'

    def implicit_fault(self, I, st, node):
        return False

    # ---- bookkeeping
    def snap(self, st):
        return tuple((n, st.env[n]) for n in self.names if n in st.env)

    def sync(self, I, st, node, what):
        net, snap, pend, fl, sent = st.auto
        old = dict(snap)
        for w in self.trackers:
            a, b = wval(w, old), wval(w, st.env)
            if a is None or b is None:
                if net:
                    self.fail[w].append((what, I.loc(node)))
                continue
            d = const_of(T._padd(b, a, -1))
            if len(w) == 1:
                self.id_steps.append((w[0], sent, d, I.loc(node)))
            if d != net:
                if what == 'iteration' and isinstance(node, ast.For) and d == 0 and net == -1 and self.drain_of(node, w, I):
                    self.drains.setdefault(w, set()).add(id(node))
                    continue
                self.fail[w].append((what, I.loc(node), net, d))
        return st.setauto((0, self.snap(st), pend, fl, 0))

    def drain_of(self, node, w, I):
        return (id(node), w) in self._ranges

    _ranges = frozenset()

    def on_loop_enter(self, I, st, node):
        if st.auto[1] == () and st.auto[0] == 0:
            return st.setauto((0, self.snap(st)) + st.auto[2:4] + (0,))
        return self.sync(I, st, node, 'entry')

    def on_head(self, I, st, node, it):
        if it is not None and it[0] == 'call' and it[1] == ('ext', 'range') and len(it[2]) == 1:
            n = T.poly(it[2][0])
            for w in self.trackers:
                v = wval(w, st.env)
                if v is not None and v == n:
                    self._ranges = self._ranges | {(id(node), w)}
        # inside the loop the havoced values are the reference
        return st.setauto((0, self.snap(st)) + st.auto[2:4] + (0,))

    def on_loop_back(self, I, st, node):
        st = self.sync(I, st, node, 'iteration')
        self.settled(I, st, node)
        if self.terminated(st):
            self.term_flags.append(({n for n, v in st.env.items() if v[0] == 'const'}, I.loc(node), id(node)))
        return st.setauto(st.auto[:2] + (None,) + st.auto[3:])

    def on_loop_exit(self, I, st, node):
        return st.setauto(st.auto[:3] + (st.auto[3] | {id(node)}, st.auto[4]))

    # ---- events
    def terminated(self, st):
        for k, v in st.facts.items():
            if k[0] == 'lt' and k[1] == ('const', 0) and is_term(k[2]) and v:
                return True
            if k[0] in ('sub', 'get') and is_term(k) and v:
                return True
            if k[0] == 'call' and is_term(k) and v and k[1][0] == 'attr' and k[1][2] == 'get':
                return True
            if k[0] == 'eq' and is_term(k) and ('const', 0) in k[1:] and v is False:
                return True
        return False

    def incomplete(self, st):
        return any(k[0] == 'eq' and v is False and ('const', 0) in k[1:] and T.contains(k, lambda x: x == ('const', 'count'))
                   for k, v in st.facts.items()) or \
            any(k[0] == 'lt' and k[1] == ('const', 0) and v and T.contains(k, lambda x: x == ('const', 'count'))
                for k, v in st.facts.items())

    def settled(self, I, st, node):
        pend = st.auto[2]
        if pend is not None and not (self.terminated(st) or self.incomplete(st)):
            self.bad.append(('recorded', 'an answer is received and not recorded', I.loc(node)))

    def record(self, I, st, node):
        self.records += 1
        if self.terminated(st):
            self.bad.append(('record-fatal', 'a case that ended in a fatal error is recorded', I.loc(node)))
        if self.incomplete(st):
            self.bad.append(('record-partial', 'a case is recorded before all its processes have answered', I.loc(node)))
        if st.auto[2] is None:
            self.bad.append(('record-twice', 'an answer is recorded twice or without having been received', I.loc(node)))
        return st.setauto(st.auto[:2] + (None,) + st.auto[3:])

    def on_yield_val(self, I, st, node, v):
        return self.record(I, st, node)

    def on_aug(self, I, st, cell, old, op, value, node):
        if cell[0] == 'sub' and cell[2] == ('const', 'count'):
            self.case_counts.append((op, value, st.auto[0], I.loc(node), st.auto[2]))
        return st

    def on_call(self, I, st, fn, args, kwargs, node):
        net, snap, pend, fl, sent = st.auto
        if is_recv(fn, args):
            self.recvs += 1
            self.settled(I, st, node)
            # conditions decided about the previous answer no longer apply
            facts = {k: v for k, v in st.facts.items() if not (is_term(k) or T.contains(k, lambda x: x == ('const', 'count')))}
            st = st.w(facts=facts)
            return [(st.setauto((net - 1, snap, 'answer', fl, sent), (I.loc(node), 'receive')),
                     ('call', fn, tuple(args), (), (I.frame.ctx, node.lineno, 'recv')))]
        if is_send(fn, args):
            self.sends += 1
            if self.terminated(st):
                self.bad.append(('send-after-fatal', 'a new case is sent after a fatal error', I.loc(node)))
            if pend is not None:
                self.bad.append(('send-before-record', 'a new case is sent before the answer just received was recorded', I.loc(node)))
            self.send_flags.append(({k for k in list(st.facts) if k[0] == 'mu'} | {k[i] for k in st.facts for i in (1, 2)
                                     if k[0] in ('is', 'eq') and k[i][0] == 'mu'}, {id(l) for fr in I.frames for l in fr.loops}))
            self.ids.append((args[0], dict(st.env), I.loc(node)))
            return [(st.setauto((net + 1, snap, pend, fl, sent + 1), (I.loc(node), 'send')), T.NONE)]
        if is_stop(fn, args):
            self.stops += 1
            self.stop_loop = [(l, I) for l in I.frame.loops]
            return [(st, T.NONE)]
        if fn[0] == 'attr' and fn[2] in ('record_completed_case', 'record_iteration'):
            return [(self.record(I, st, node), T.NONE)]
        if fn[0] == 'attr' and fn[2] == 'append' and T.contains(args[0] if args else T.NONE, lambda x: x[0] == 'call' and isinstance(x[4], tuple) and x[4][-1:] == ('recv',)):
            return [(self.record(I, st, node), T.NONE)]
        return None


def is_term(t):
    return T.contains(t, lambda x: x == ('const', 'terminate'))


def zero(st, w, env):
    """is the tracker known to be zero?"""
    v = wval(w, env)
    if v is None:
        return False
    if const_of(v) == 0:
        return True
    for k, x in st.facts.items():
        if k[0] == 'eq' and x is True:
            d = T._padd(T.poly(k[1]), T.poly(k[2]), -1)
            if d == v or T._padd(d, v, 1) == {}:
                return True
        # 0 < v false: nothing outstanding
        if k[0] == 'lt' and x is False and T._padd(T._padd(T.poly(k[2]), T.poly(k[1]), -1), v, -1) == {}:
            return True
        if k[0] == 'le' and x is True and T._padd(T._padd(T.poly(k[1]), T.poly(k[2]), -1), v, -1) == {}:
            return True
        if x is False and T.poly(k) == v:
            return True
    return False


def idle(st, w, env):
    """no case was ever sent: a partial counter is zero and so is the other"""
    if len(w) != 2 or any(n not in env for n in w):
        return False
    return const_of(T.poly(env[w[1]])) == 0 and any(
        (k[0] == 'lt' and x is False and k[1] == ('const', 0) and k[2] == env[w[0]]) or
        (x is False and k == env[w[0]]) for k, x in st.facts.items())


def coordinator(rep, repo, key, f, cls, assume=None, kind='', stop=()):
    c = Count(f, assume, stop)
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    rep.saw('paths', len(out.ret))
    rep.need(c.sends and c.recvs, key + ': no sends or receives found')
    ends = {}
    for w in c.trackers:
        n = 0
        for st, v in out.ret:
            if not (zero(st, w, st.env) or idle(st, w, st.env) or c.drains.get(w, set()) & st.auto[3] or
                    any((i, w) in c._ranges and i in st.auto[3] for i in [x for x, _ in c._ranges if x in c.drains.get(w, ())])):
                n += 1
        ends[w] = n
    good = [w for w in c.trackers if not c.fail[w]]
    done = [w for w in good if not ends[w]]
    if not done:
        best = min(c.trackers, key=lambda w: (len(c.fail[w]), ends[w])) if c.trackers else None
        if best is None:
            badob(rep, key + '/outstanding', 'nothing counts the outstanding messages', where(f), 'accounting')
        elif c.fail[best]:
            x = c.fail[best][0]
            badob(rep, key + '/outstanding', '%s does not follow the number of outstanding messages (sent minus received changes by %s, '
                    'the count by %s)' % (' - '.join(best), x[2] if len(x) > 2 else '?', x[3] if len(x) > 3 else '?'), x[1], 'accounting')
        else:
            badob(rep, key + '/outstanding', 'can end while %s cases are still being worked on' % ' - '.join(best), where(f), 'accounting')
    else:
        rep.ob(key + '/outstanding', True)
    for k, msg, loc in c.bad:
        badob(rep, '%s/%s' % (key, k), msg, loc, 'accounting')
    rep.ob(key + '/records', c.records > 0, 'no answer is recorded', where(f), 'accounting')
    rep.ob(key + '/stop', c.stops > 0, 'workers are never told to stop', where(f), 'accounting')
    # after a fatal error some flag prevents further sends
    for names, loc, loop in c.term_flags:
        inside = [fl for fl, loops in c.send_flags if loop in loops]
        ok = not inside or any(all(any(m[2] == n for m in fl if len(m) > 2) for fl in inside) for n in names)
        rep.ob(key + '/stops-sending', ok, 'after a fatal error the loop goes on sending cases', loc, 'accounting')
    return c


def stop_scope(rep, repo, key, f, whole):
    """the stop message is sent once to every worker: iterates over the same collection that was started, or every other rank"""
    found = 0
    for n in ast.walk(f.node):
        if isinstance(n, ast.For):
            for b in ast.walk(n):
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ('put', 'send') and b.args \
                        and stop_const(b.args[0]):
                    found += 1
                    rep.ob(key + '/stop-all', whole(ast.dump(n.iter), n), 'not every worker is told to stop', where(f, n), 'accounting')
    return found


def stop_const(a):
    return isinstance(a, ast.Constant) and a.value in ('STOP', None) or isinstance(a, ast.Tuple) and all(
        isinstance(e, ast.Constant) and e.value is None for e in a.elts)


# ---------------------------------------------------------------- workers
class Answer(Client):
    """auto = None (idle) or the case taken"""
    max_states = 400
    havoc_loops = True

    def __init__(self, assume=None, risky=(), local=False):
        self.bad, self._assume, self.risky = [], assume, risky
        self.taken = self.answered = 0
        self.local = local
        self.prepared = []

    def init_auto(self):
        return None

    def assume(self, t):
        return self._assume(t) if self._assume else None

    def inline(self, I, fn, func):
        return (fn[0] in ('func', 'closure') or fn[0] == 'attr' and fn[1] == T.SELF) and func.name not in (
            'create_local_meta', 'update_local_meta', '_get_root_var', '_get_local_case_data', '_build_runlist')

    def nothrow(self, I, st, fn, node):
        return not self.risk(fn)

    def risk(self, fn):
        return fn[0] == 'param' or ext_tail(fn) in self.risky

    def implicit_fault(self, I, st, node):
        return False

    def take(self, I, st, node, case):
        self.taken += 1
        self.open(I, st, node)
        return st.setauto(case, (I.loc(node), 'take'))

    def open(self, I, st, node):
        if st.auto is not None and not self.stopped(st):
            self.bad.append(('answered', 'a case was taken and never answered', I.loc(node)))

    def stopped(self, st):
        c = st.auto
        for k, v in st.facts.items():
            if v and k[0] in ('is', 'eq') and T.NONE in k[1:] and any(T.contains(x, lambda y: y == c) for x in k[1:]):
                return True
            if v and k[0] == 'eq' and ('const', 'STOP') in k[1:]:
                return True
            if v is False and T.contains(k, lambda y: y == c) and (k == c or k == ('sub', c, ('const', 0))):
                return True
        return False

    def on_iter(self, I, st, node, it):
        if it[0] == 'call' and it[1] == ('ext', 'iter') and len(it[2]) == 2 and it[2][0][0] == 'attr' and it[2][0][2] in ('get', 'recv'):
            return self.take(I, st, node, ('elem', it))
        return st

    def on_loop_exit(self, I, st, node):
        return st

    def on_call(self, I, st, fn, args, kwargs, node):
        if is_recv(fn, args):
            t = ('call', fn, tuple(args), (), (I.frame.ctx, node.lineno, 'recv'))
            st = st.w(facts={k: v for k, v in st.facts.items() if not T.contains(k, lambda y: y == t)})
            return [(self.take(I, st, node, t), t)]
        if is_send(fn, args):
            self.answered += 1
            if st.auto is None:
                self.bad.append(('once', 'an answer is sent without a case to answer', I.loc(node)))
            elif self.stopped(st):
                self.bad.append(('stop', 'the stop message is answered', I.loc(node)))
            self.content(I, st, args[0], node)
            return [(st.setauto(None, (I.loc(node), 'answer')), T.NONE)]
        if ext_tail(fn) == '_prep_case' and st.auto is not None:
            self.prepared.append((args, st.auto, I.loc(node)))
        return None

    def content(self, I, st, msg, node):
        if not (msg[0] == 'tuple' and len(msg[1]) == 2 and self.local):
            return
        meta, vals = msg[1]
        if vals == ('list', ()) and ('items', vals) not in st.heap:
            term = any(v and ext_tail(k[1] if k[0] == 'call' else k) == '_try_case' or v and T.contains(k, lambda x: x[0] == 'call' and ext_tail(x[1]) == '_try_case')
                       for k, v in st.facts.items())
            ok = term or all(st.heap.get(('sub', m, ('const', 'terminate'))) == ('const', 1) and
                             st.heap.get(('sub', m, ('const', 'success'))) == ('const', 0) for m in T.alts(meta))
            if not ok:
                self.bad.append(('failure', 'a case that could not be run is not reported as failed and terminating', I.loc(node)))


def worker_check(rep, repo, key, f, cls=None, assume=None, risky=(), local=False, yields=False):
    c = Answer(assume, risky, local)
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    rep.need(c.taken and c.answered, key + ': takes or answers no case')
    for st, v in out.ret:
        rep.ob(key + '/end', st.auto is None or c.stopped(st), 'a worker can end without answering the case it has taken', where(f), 'answer')
    for st, e in out.exc:
        rep.ob(key + '/fails', st.auto is None or e[1] == 'yield', 'a worker can die without answering the case it has taken', where(f), 'answer')
    for k, msg, loc in c.bad:
        badob(rep, '%s/%s' % (key, k), msg, loc, 'answer')
    rep.ob(key + '/answers', True)
    return c


# ---------------------------------------------------------------- local execution
class Local(Client):
    """auto = (values applied, runs, count at head)"""
    max_states = 400
    generic_loops = True
    havoc_loops = True

    def __init__(self, assume):
        self._assume = assume
        self.bad, self.runs = [], 0
        self.case_loops = set()

    def init_auto(self):
        return (False, 0, None)

    def assume(self, t):
        return self._assume(t)

    def inline(self, I, fn, func):
        return (fn[0] in ('func', 'closure') or fn[0] == 'attr' and fn[1] == T.SELF) and func.name not in (
            'create_local_meta', 'update_local_meta', '_build_runlist', '_distrib_build_runlist', '_distrib_lb_build_runlist',
            '_save_case', 'set_desvar', 'any_proc_is_true', '_get_case_w_nones')

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_iter(self, I, st, node, it):
        if not T.contains(it, lambda x: x[0] in ('elem', 'item')) and T.contains(it, lambda x: x[0] == 'call' and ext_tail(x[1]) in ('_build_runlist', '_distrib_build_runlist', '_distrib_lb_build_runlist')):
            self.case_loops.add(id(node))
            return st.setauto((False, 0, it, 'none'))
        return st

    def on_loop_back(self, I, st, node):
        if id(node) in self.case_loops:
            dummy = any(v and k[0] in ('is', 'eq') and T.NONE in k[1:] and T.contains(k, lambda x: x[0] == 'elem') for k, v in st.facts.items())
            master = any(v and k[0] == 'eq' and mentions_attr(k, 'rank') for k, v in st.facts.items())
            n = st.auto[1]
            if n != (0 if dummy or master else 1):
                self.bad.append(('run-once', 'one case runs the model %d times' % n, I.loc(node)))
            if st.auto[3] == 'fatal' and not self.lb:
                self.bad.append(('fatal', 'an unexpected exception of the model is neither raised nor reported', I.loc(node)))
            c = st.heap.get(('attr', T.SELF, 'iter_count'))
            if c is None or const_of(T._padd(T.poly(c), {frozenset([(self.head, 1)]): 1}, -1)) not in (1,):
                self.bad.append(('count', 'the case count is not advanced by one for each case', I.loc(node)))
            st = st.setauto((False, 0, None))
        return st

    def on_head(self, I, st, node, it):
        self.head = st.heap.get(('attr', T.SELF, 'iter_count'), ('attr', T.SELF, 'iter_count'))
        return st

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm == 'set_desvar' and len(st.auto) == 4:
            e = ('elem', st.auto[2])
            ok = len(args) >= 2 and all(T.contains(a, lambda x: x[0] == 'elem') for a in args[:2])
            if not ok:
                self.bad.append(('values', 'a design variable is set to something other than the case\'s value', I.loc(node)))
            if st.auto[1]:
                self.bad.append(('late', 'design values are applied after the model has run', I.loc(node)))
            return [(st.setauto((True,) + st.auto[1:]), T.NONE)]
        if nm == 'solve_nonlinear' and len(st.auto) == 4:
            self.runs += 1
            a = st.auto
            empty = any(k[0] == 'nonempty' and v is False for k, v in st.facts.items())
            if not a[0] and not empty:
                self.bad.append(('values', 'the model runs before the case\'s values are applied', I.loc(node)))
            I.excs.append((st.setauto(a[:1] + (a[1] + 1, a[2], 'analysis')),
                           ('raised', ('call', ('class', 'openmdao.core.system:AnalysisError'), (), (), None))))
            I.excs.append((st.setauto(a[:1] + (a[1] + 1, a[2], 'fatal')), ('raised', ('call', ('ext', 'RuntimeError'), (), (), None))))
            return [(st.setauto(a[:1] + (a[1] + 1,) + a[2:]), T.NONE)]
        return None


class Outcome(Client):
    """what _try_case leaves in the metadata for each outcome of the model"""
    max_states = 100

    def init_auto(self):
        return 'ok'

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF or fn[0] == 'func'

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) == 'solve_nonlinear':
            I.excs.append((st.setauto('analysis'), ('raised', ('call', ('class', 'openmdao.core.system:AnalysisError'), (), (), None))))
            I.excs.append((st.setauto('fatal'), ('raised', ('call', ('ext', 'RuntimeError'), (), (), None))))
            return [(st, T.NONE)]
        return None


def local_runs(rep, repo):
    cls = repo.cls('PredeterminedRunsDriver')
    modes = {'serial': (False, False, False), 'parallel': (True, True, False), 'balanced': (True, True, True)}
    f = repo.method(cls, 'run')
    for name, (many, mpi, lb) in modes.items():
        def assume(t, many=many, mpi=mpi, lb=lb):
            if t == ('attr', T.SELF, '_load_balance'):
                return lb
            if t[0] in ('lt', 'le') and mentions_attr(t, '_num_par_doe'):
                return many if t[2] == ('attr', T.SELF, '_num_par_doe') else not many
            if t[0] == 'ext' and t[1].endswith('.MPI') or t == ('global', 'MPI'):
                return mpi
            if t[0] == 'ext' and t[1] == 'six.PY3':
                return True
            if t[0] == 'is' and T.NONE in t[1:] and any(x[0] == 'call' and ext_tail(x[1]) == 'exc_info' for x in t[1:]):
                return False
            if t[0] == 'call' and ext_tail(t[1]) == 'any_proc_is_true' and t[2][-1] == ('const', True):
                return True
            return None
        c = Local(assume)
        c.lb = lb
        I, out = run(repo, c, f, self_cls=cls)
        rep.fn(f.qualname, *I.inlined)
        key = 'run/' + name
        rep.need(c.runs and c.case_loops, key + ': no model run found')
        for k, msg, loc in c.bad:
            badob(rep, '%s/%s' % (key, k), msg, loc, 'local-run')
        rep.ob(key + '/runs', True)
        rep.ob(key + '/propagates', lb or any(st.auto[-1] == 'fatal' for st, e in out.exc), 'an unexpected exception of the model does not reach the caller', where(f), 'local-run')
    f = repo.method(cls, '_try_case')
    if f is not None:
        c = Outcome()
        I, out = run(repo, c, f, self_cls=cls)
        rep.fn(f.qualname)
        m = ('param', [a.arg for a in f.node.args.args][2])
        for st, v in out.ret:
            s, t = (st.heap.get(('sub', m, ('const', k))) for k in ('success', 'terminate'))
            want = {'ok': (None, 0), 'analysis': (0, 0), 'fatal': (0, 1)}[st.auto]
            got = (s[1] if s else None, t[1] if t and t[0] == 'const' else None)
            rep.ob('outcome/' + st.auto, (got[0], got[1] and 1 or 0) == want or st.auto == 'ok' and got[0] == 1 and not got[1],
                   'a case with outcome "%s" is marked success=%s terminate=%s' % (st.auto, got[0], got[1]), where(f), 'outcome')
        rep.ob('outcome/contained', not any(True for st, e in out.exc), 'an exception of the model escapes the case', where(f), 'outcome')


# ---------------------------------------------------------------- distribution and generation
def own_yields(f):
    return [n for n in _own_nodes(f.node) if isinstance(n, ast.Yield)]


class Select(Client):
    generic_loops = True

    def __init__(self):
        self.ys = []

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF and func.name != '_build_runlist' or fn[0] == 'func'

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_yield_val(self, I, st, node, v):
        self.ys.append((v, dict(st.facts), I.loc(node)))
        return st


def distribution(rep, repo):
    cls = repo.cls('PredeterminedRunsDriver')
    f = repo.method(cls, '_distrib_build_runlist')
    c = Select()
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    rep.need(c.ys, '_distrib_build_runlist yields nothing')
    n, me = ('attr', T.SELF, '_num_par_doe'), ('attr', T.SELF, '_par_doe_id')
    for v, facts, loc in c.ys:
        conds = [(k, x) for k, x in facts.items() if mentions_attr(k, '_par_doe_id') or mentions_attr(k, '_num_par_doe')]
        ok = False
        if len(conds) == 1 and conds[0][0][0] == 'eq' and conds[0][1] is True:
            k = conds[0][0]
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if b == me and a[0] == 'bin' and a[1] == '%' and a[3] == n and a[2][0] in ('idx', 'mu'):
                    ok = True
        # islice(runlist, id, None, n)
        if not conds and T.contains(v, lambda x: x[0] == 'call' and ext_tail(x[1]) == 'islice' and me in x[2] and x[2][-1] == n):
            ok = True
        rep.ob('distribution/predicate', ok, 'a case is selected under %s; every case must be selected by exactly one of the '
               'processes 0..n-1' % ', '.join('%s=%s' % (T.show(k), x) for k, x in conds), loc, 'distribution')
        rep.ob('distribution/case', T.contains(v, lambda x: x[0] == 'call' and ext_tail(x[1]) == '_build_runlist'),
               'what is yielded is not a case of the run list', loc, 'distribution')
    lc = repo.cls('LatinHypercubeDriver')
    f = repo.method(lc, '_distrib_build_runlist')
    if f.qualname.startswith('LatinHypercubeDriver') or 'LatinHypercube' in f.qualname:
        rep.fn(f.qualname)
        sl = [x for x in ast.walk(f.node) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice)]
        calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and ast.unparse(x.func).endswith('evenly_distrib_idxs')]
        for n in calls:
            a = [ast.unparse(x) for x in n.args]
            rep.ob('scatter/partition', a[:1] == ['self._num_par_doe'] and len(a) > 1 and (
                'len(' in a[1] or isinstance(n.args[1], ast.Name)),
                'the run list is not divided by its length among the parallel experiments', where(f, n), 'distribution')
        if len(calls) != 1:
            sl = []
        for x in sl:
            lo, hi, step = x.slice.lower, x.slice.upper, x.slice.step
            good = step is None and isinstance(lo, ast.Name) and isinstance(hi, ast.BinOp) and isinstance(hi.op, ast.Add) and \
                lo.id in (getattr(hi.left, 'id', None), getattr(hi.right, 'id', None))
            rep.ob('scatter/slices', good, 'the slices %s do not partition the run list' % ast.unparse(x), where(f, x), 'distribution')
        c = Select()
        run(repo, c, f, self_cls=lc)
        for v, facts, loc in c.ys:
            rep.ob('scatter/all', not any(k[0] != 'nonempty' and T.contains(k, lambda x: x[0] in ('elem', 'idx')) for k in facts), 'scattered cases are skipped', loc, 'distribution')


class Div(Client):
    """order of the element updates and of the running sum"""
    def __init__(self):
        self.ups, self.sums = [], []

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) == 'cumsum':
            self.sums.append(len(self.ups))
        return None

    def on_store(self, I, st, cell, value, node):
        self.ups.append((cell, value, None, I.loc(node)))
        return st

    def on_aug(self, I, st, cell, old, op, value, node):
        self.ups.append((cell, value, op, I.loc(node)))
        return st


def division(rep, repo):
    """sizes add up to the number of entries and each offset is the sum of the sizes before it"""
    f = repo.func('array_util.evenly_distrib_idxs')
    c = Div()
    I, out = run(repo, c, f)
    rep.fn(f.qualname)
    par = [('param', a.arg) for a in f.node.args.args][:2]
    n, total = par
    q, r = ('bin', '//', total, n), ('bin', '%', total, n)
    rests = [T.poly(r), T.poly(('bin', '-', total, ('bin', '*', q, n)))]
    for st, v in out.ret:
        if v[0] != 'tuple' or len(v[1]) != 2:
            continue
        S, O = v[1]
        flat = S[0] == 'bin' and S[1] == '*' and q in S[2:] and any(ext_call(x, 'ones') for x in S[2:]) or \
            ext_call(S, 'full') and len(S[2]) > 1 and S[2][1] == q
        if flat:
            ups = [u for u in c.ups if u[0][0] == 'sub' and u[0][1] == S]
            rep.ob('division/remainder', bool(ups), 'the remainder of the division is given to nobody', where(f), 'distribution')
            for cell, val, op, loc in ups:
                ix = cell[2]
                if op is None:
                    good = val == ('bin', '+', cell, ('const', 1)) or val[0] == 'bin' and val[1] == '+' and ('const', 1) in val[2:] and (q in val[2:] or cell in val[2:])
                else:
                    good = op == '+' and val == ('const', 1)
                if ix[0] == 'slice':
                    good = good and ix[1] in (T.NONE, ('const', 0)) and ix[3] in (T.NONE, ('const', 1)) and T.poly(ix[2]) in rests
                rep.ob('division/remainder', good, 'the sizes do not add up to the number of entries', loc, 'distribution')
            rep.ob('division/order', not c.sums or min(c.sums) >= sum(1 for u in c.ups if u[0][0] == 'sub' and u[0][1] == S),
                   'offsets are summed before the sizes are final', where(f), 'distribution')
        if ext_call(O, 'zeros'):
            ups = [u for u in c.ups if u[0][0] == 'sub' and u[0][1] == O]
            rep.ob('division/offsets', bool(ups), 'every division starts at zero', where(f), 'distribution')
            for cell, val, op, loc in ups:
                if cell[2][0] != 'slice' or not T.contains(val, lambda x: ext_call(x, 'cumsum')):
                    continue
                cut = ('slice', T.NONE, ('const', -1), T.NONE)
                good = op is None and cell[2] == ('slice', ('const', 1), T.NONE, T.NONE) and (
                    val[0] == 'sub' and val[2] == cut and ext_call(val[1], 'cumsum') and val[1][2][:1] == (S,) or
                    ext_call(val, 'cumsum') and val[2][:1] == (('sub', S, cut),))
                rep.ob('division/offsets', good, 'an offset is not the sum of the sizes before it', loc, 'distribution')


def ext_call(t, name):
    return t[0] == 'call' and ext_tail(t[1]) == name


class Gen(Client):
    """records draws (uniform, linspace, bucket) and yields of a case generator"""
    generic_loops = True
    max_states = 3000

    def __init__(self):
        self.draws, self.ys, self.iters = [], [], []

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF and func.name not in ('_get_lhc', 'get_desvar_metadata') or fn[0] == 'func'

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_iter(self, I, st, node, it):
        self.iters.append((it, I.loc(node)))
        return st

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm in ('uniform', 'linspace', 'random'):
            self.draws.append((nm, tuple(args), dict(kwargs), dict(st.facts), I.loc(node)))
        return None

    def on_yield_val(self, I, st, node, v):
        self.ys.append((v, dict(st.facts), I.loc(node), [l for l in I.frame.loops]))
        return st


def bound(t, which, facts):
    """is the term the given bound of one design variable (whole, or the entry of an array)?"""
    base = t
    idx = None
    if t[0] == 'sub' and not (t[2][0] == 'const' and isinstance(t[2][1], str)):
        base, idx = t[1], t[2]
    if base[0] == 'sub' and base[2] == ('const', which):
        return base[1], idx
    return None


def generators(rep, repo):
    base = repo.cls('PredeterminedRunsDriver')
    for cls in repo.all_classes():
        if base not in repo.mro(cls) or '_build_runlist' not in cls.methods:
            continue
        f = repo.method(cls, '_build_runlist')
        c = Gen()
        I, out = run(repo, c, f, self_cls=cls)
        rep.fn(f.qualname, *I.inlined)
        key = 'generate/' + cls.name
        rep.need(c.ys, key + ': yields no case')
        n = 0
        for nm, args, kw, facts, loc in c.draws:
            a = list(args) + [kw.get(k) for k in ('low', 'start') if k in kw] + [kw.get(k) for k in ('high', 'stop') if k in kw]
            lo, hi = a[0], a[1]
            if not (T.contains(lo, lambda x: x in (('const', 'lower'), ('const', 'upper'))) or nm == 'linspace'):
                continue          # drawing inside a bucket
            n += 1
            pl = [bound(x, 'lower', facts) for x in T.alts(lo)]
            ph = [bound(x, 'upper', facts) for x in T.alts(hi)]
            ok = all(pl) and all(ph)
            rep.ob(key + '/bounds', ok, 'values are drawn between %s and %s, not between the lower and upper bound' % (T.show(lo), T.show(hi)), loc, 'bounds')
            if ok:
                metas = {m for m, _ in pl + ph}
                rep.ob(key + '/own-bounds', len(metas) == 1, 'bounds of different design variables are mixed', loc, 'bounds')
                idx = {i for _, i in pl + ph if i is not None}
                rep.ob(key + '/entry', len(idx) <= 1 and all(i[0] in ('idx', 'elem', 'mu') for i in idx),
                       'bounds of different entries are mixed: %s' % ', '.join(T.show(i) for i in idx), loc, 'bounds')
                ar = [v for k, v in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance']
        if cls.name in ('UniformDriver', 'FullFactorialDriver', 'LatinHypercubeDriver'):
            rep.need(n, key + ': no draw between bounds found')
        for v, facts, loc, loops in c.ys:
            cond = [k for k, x in facts.items() if k[0] not in ('nonempty',) and T.contains(k, lambda y: y[0] in ('idx', 'elem', 'mu'))
                    and not (k[0] == 'call' and ext_tail(k[1]) == 'isinstance')]
            rep.ob(key + '/every', not cond, 'a case is only produced under %s' % ', '.join(map(T.show, cond)), loc, 'generate')
            rep.ob(key + '/one-loop', len(loops) == 1, 'cases are produced in %d nested loops' % len(loops), loc, 'generate')
            # every entry: one value per entry of each design variable
        sizes = [it for it, loc in c.iters if it[0] == 'call' and it[1] == ('ext', 'range') and T.contains(it, lambda x: x == ('const', 'size'))]
        if n:
            rep.ob(key + '/entries', sizes or any(isinstance(x, ast.comprehension) and 'size' in ast.unparse(x.iter) for x in ast.walk(f.node)),
                   'not every entry of an array design variable receives a value', where(f), 'generate')
            for it in sizes:
                rep.ob(key + '/all-entries', len(it[2]) == 1 and it[2][0][0] == 'sub', 'not every entry receives a value: %s' % T.show(it), where(f), 'generate')
            num = ('attr', T.SELF, 'num_samples')
            nl = ('attr', T.SELF, 'num_levels')
            if cls.name == 'FullFactorialDriver':
                rep.ob(key + '/levels', all(nl in a or nl in kw.values() for nm, a, kw, _, _ in c.draws), 'a design variable is not sampled at all levels', where(f), 'generate')
                prods = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and ast.unparse(x.func).endswith('product')]
                rep.ob(key + '/product', len(prods) >= 2, 'the combinations of all levels of all variables are not formed', where(f), 'generate')
            else:
                ok = [it for it, loc in c.iters if it == ('call', ('ext', 'range'), (num,), (), it[4])] or \
                    [it for it, loc in c.iters if it[0] == 'call' and ext_tail(it[1]) == 'range' and tuple(it[2]) == (num,)]
                rep.ob(key + '/samples', ok, 'the number of cases is not the number of samples asked for', where(f), 'generate')


# ---------------------------------------------------------------- latin property
class Swap(Client):
    generic_loops = True

    def __init__(self):
        self.ev = []

    def inline(self, I, fn, func):
        return False

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def init_auto(self):
        return ()

    def on_iter(self, I, st, node, it):
        return st.setauto(())

    def on_store(self, I, st, cell, value, node):
        return st.setauto(st.auto + ((cell, value, I.loc(node)),)) if cell[0] == 'sub' else st

    def on_loop_back(self, I, st, node):
        self.ev.append(st.auto)
        return st


def latin(rep, repo):
    cls = repo.cls('_LHC_Individual')
    f = repo.method(cls, 'perturb')
    c = Swap()
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname)
    evs = [e for e in c.ev if e]
    rep.need(evs, 'perturb: no interchange found')
    for e in evs:
        cells = [x[0] for x in e]
        vals = [x[1] for x in e]
        ok = len(e) == 2 and cells[0] != cells[1] and vals[0] == cells[1] and vals[1] == cells[0]
        col = [x[2][1][-1] if x[2][0] == 'tuple' else None for x in cells]
        rep.ob('latin/interchange', ok, 'perturbing a design does not interchange two of its current elements: %s' % '; '.join(
            '%s = %s' % (T.show(x[0]), T.show(x[1])) for x in e), e[0][2], 'latin')
        rep.ob('latin/column', len(set(col)) == 1, 'elements of different columns are interchanged', e[0][2], 'latin')


class Rand(Client):
    generic_loops = True

    def init_auto(self):
        return ()

    def inline(self, I, fn, func):
        return fn[0] in ('func', 'closure')

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_iter(self, I, st, node, it):
        return st.setauto(st.auto + (('iter', it),))

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) in ('shuffle', 'permutation'):
            return [(st.setauto(st.auto + (('shuffle', args),)), T.NONE if ext_tail(fn) == 'shuffle' else ('perm', args[0]))]
        return None

    def on_store(self, I, st, cell, value, node):
        return st.setauto(st.auto + (('set', cell, value, I.loc(node)),)) if cell[0] == 'sub' else st


def is_levels(t, n):
    """list(range(0, n)) or equivalent"""
    if t[0] == 'perm':
        return t[1] == n or is_levels(t[1], n)
    if t[0] == 'call' and ext_tail(t[1]) in ('list', 'array', 'arange', 'range'):
        a = t[2]
        if ext_tail(t[1]) in ('list', 'array'):
            return len(a) == 1 and is_levels(a[0], n)
        return a in ((n,), (('const', 0), n))
    return False


def sampling(rep, repo):
    f = repo.func('openmdao.drivers.latinhypercube_driver._rand_latin_hypercube')
    I, out = run(repo, Rand(), f)
    rep.fn(f.qualname)
    n, k = [('param', a.arg) for a in f.node.args.args][:2]
    seen = 0
    for st, v in out.ret:
        sets = [e for e in st.auto if e[0] == 'set']
        for e in sets:
            seen += 1
            shuf = [x[1] for x in st.auto if x[0] == 'shuffle']
            val = e[2]
            rep.ob('latin/permutation', is_levels(val, n) and bool(shuf), 'a column of the hypercube is filled with %s, not with a '
                   'permutation of all levels' % T.show(val), e[3], 'latin')
            col = e[1][2][1] if e[1][2][0] == 'tuple' else ()
            rep.ob('latin/columns', len(col) == 2 and col[0] == ('slice', T.NONE, T.NONE, T.NONE) and col[1][0] == 'idx',
                   'the columns of the hypercube are not filled one by one', e[3], 'latin')
            rep.ob('latin/all-columns', ('iter', ('call', ('ext', 'range'), (k,), (), None)) in [x[:2] for x in st.auto] or any(
                x[0] == 'iter' and x[1][0] == 'call' and tuple(x[1][2]) in ((k,), (('const', 0), k)) for x in st.auto),
                'not every column of the hypercube is filled', e[3], 'latin')
    rep.need(seen, 'random hypercube: no column is filled')
    cls = repo.cls('LatinHypercubeDriver')
    f = repo.method(cls, '_build_runlist')
    c = Gen()
    I, out = run(repo, c, f, self_cls=cls)
    num = ('attr', T.SELF, 'num_samples')
    inner = 0
    for nm, args, kw, facts, loc in c.draws:
        if nm == 'linspace':
            a = list(args) + [kw[x] for x in ('num',) if x in kw]
            rep.ob('latin/strata', len(a) >= 3 and T.same(a[2], ('bin', '+', num, ('const', 1))), 'a variable is divided by %s walls, '
                   'not into one stratum for each sample' % T.show(a[2] if len(a) > 2 else T.NONE), loc, 'latin')
        elif nm == 'uniform' and len(args) == 2:
            inner += 1
            lo, hi = args
            ok = lo[0] == hi[0] == 'sub' and lo[1] == hi[1] and (lo[2], hi[2]) == (('const', 0), ('const', 1))
            rep.ob('latin/stratum', ok, 'a sample is drawn between %s and %s, which do not bound one stratum' % (T.show(lo), T.show(hi)), loc, 'latin')
    rep.need(inner, 'latin hypercube: no draw within a stratum found')
    # every entry of every variable uses its own column
    src = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and '_get_lhc' in ast.unparse(n.value) for t in n.targets if isinstance(t, ast.Name)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in src and isinstance(n.slice, ast.Tuple):
            j = n.slice.elts[-1]
            if isinstance(j, ast.Name):
                loops = [x for x in ast.walk(f.node) if isinstance(x, ast.For) and any(y is n for y in ast.walk(x))]
                innermost = loops[-1] if loops else None
                inc = [x for x in ast.walk(f.node) if isinstance(x, ast.AugAssign) and getattr(x.target, 'id', None) == j.id]
                if inc:
                    rep.ob('latin/own-column', len(inc) == 1 and inc[0] in innermost.body and isinstance(inc[0].op, ast.Add) and
                           getattr(inc[0].value, 'value', None) == 1, 'two entries share a column of the hypercube, or a column is skipped', where(f, n), 'latin')
                    outer = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(getattr(t, 'id', None) == j.id for t in x.targets)]
                    rep.ob('latin/first-column', all(not any(y is x for l in loops for y in ast.walk(l)) for x in outer), 'the column is reset between '
                           'design variables', where(f, n), 'latin')
                else:
                    tgt = [x for x in loops if any(getattr(t, 'id', None) == j.id for t in ast.walk(x.target))]
                    rep.ob('latin/own-column', not any('size' in ast.unparse(x.iter) or isinstance(x.iter, ast.Call) and 'nval' in ast.unparse(x.iter)
                           for x in tgt), 'entries of different design variables share columns of the hypercube', where(f, n), 'latin')


def check(repo, rep, tier):
    cls = repo.cls('PredeterminedRunsDriver')
    # multiprocessing
    f = repo.method(cls, '_run_lb_multiproc')
    c = coordinator(rep, repo, 'multiprocessing', f, cls)
    ids = [(m[1][0], env, loc) for m, env, loc in c.ids if m[0] == 'tuple']
    for i, env, loc in ids:
        rep.ob('multiprocessing/case-id', any(env.get(n) == i for n in c.names) or i[0] == 'call',
               'the number sent with a case is not a running count', loc, 'accounting')
    numbering(rep, f, c)
    stop_scope(rep, repo, 'multiprocessing', f, lambda d, n: d == started(f))
    targets = [k.value for n in ast.walk(f.node) if isinstance(n, ast.Call) for k in n.keywords if k.arg == 'target']
    rep.need(targets, 'no worker process target found')
    for t in targets:
        w = repo.func('%s.%s' % (f.module.name, t.id))
        a = worker_check(rep, repo, 'worker', w, risky=('_prep_case', '_try_case', '_get_root_var'), local=True)
        for args, case, loc in a.prepared:
            rep.ob('worker/prepares', len(args) == 2 and all(T.contains(x, lambda y: y == case) for x in args) and args[0] != args[1],
                   'the values prepared are not those of the case taken', loc, 'answer')
        rep.need(a.prepared, 'worker prepares no case')
    pairing(rep, repo, f, cls)
    # MPI
    f = repo.method(cls, '_distrib_lb_build_runlist')

    def rank(v):
        def assume(t):
            if t[0] == 'eq' and mentions_attr(t, 'rank') and ('const', 0) in t[1:]:
                return v
            if t == ('global', 'trace') or t[0] == 'call' and ext_tail(t[1]) == 'get':
                return None
            return None
        return assume
    stop_scope(rep, repo, 'mpi-master', f, other_ranks)
    c = coordinator(rep, repo, 'mpi-master', f, cls, rank(True))
    for op, val, net, loc, pend in c.case_counts:
        rep.ob('mpi-master/per-case', val == ('const', 1) and op in '+-' and (op == '-') == (pend is not None), 'the number of processes still working on a case is '
               'changed by %s%s' % (op, T.show(val)), loc, 'accounting')
    for op in '+-':
        rep.ob('mpi-master/per-case' + op, any(x[0] == op for x in c.case_counts), 'the number of processes still working on a case is not %s' % (
            'increased when the case is sent' if op == '+' else 'decreased when one answers'), where(f), 'accounting')
    worker_check(rep, repo, 'mpi-worker', f, cls, rank(False))
    # generic
    f = repo.func('openmdao.util.concurrent.concurrent_eval_lb')

    def conc(v):
        def assume(t):
            if t == ('is', ('param', 'comm'), T.NONE):
                return False
            if t[0] in ('lt', 'le') and mentions_attr(t, 'size'):
                return t[0] == 'lt' and t[1] == ('const', 1)
            return rank(v)(t)
        return assume
    fs = [g for g in repo.all_functions() if g.module is f.module and any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'recv' for x in _own_nodes(g.node))]
    rep.need(fs, 'concurrent evaluation: nothing receives messages')
    for g in fs:
        if stop_scope(rep, repo, 'concurrent-master', g, other_ranks):
            coordinator(rep, repo, 'concurrent-master', g, None, conc(True))
        if len(fs) == 1 or not any(stop_const(x.args[0]) for x in _own_nodes(g.node) if isinstance(x, ast.Call) and x.args
                                   and isinstance(x.func, ast.Attribute) and x.func.attr == 'send'):
            worker_check(rep, repo, 'concurrent-worker', g, None, conc(False))
    serial(rep, repo, f)
    local_runs(rep, repo)
    distribution(rep, repo)
    division(rep, repo)
    generators(rep, repo)
    latin(rep, repo)
    sampling(rep, repo)


def other_ranks(dump, node):
    """range(1, <size>)"""
    it = node.iter
    return isinstance(it, ast.Call) and getattr(it.func, 'id', None) == 'range' and len(it.args) == 2 and \
        isinstance(it.args[0], ast.Constant) and it.args[0].value == 1 and 'size' in ast.unparse(it.args[1])


def started(f):
    """the collection whose processes are started"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and any(isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == 'start'
                                          for b in ast.walk(n)):
            return ast.dump(n.iter)


def numbering(rep, f, c):
    """cases sent carry distinct numbers: a counter advanced once for every case sent and by nothing else"""
    ids = {n for m, env, loc in c.ids if m[0] == 'tuple' for n in c.names if env.get(n) == m[1][0]}
    for n in ids:
        lag = [x for x in c.id_steps if x[0] == n and x[1] != x[2]]
        rep.ob('multiprocessing/numbering', not lag, 'the number given to cases changes by %s while %s cases are sent' % (
            lag and lag[0][2], lag and lag[0][1]), lag[0][3] if lag else where(f), 'accounting')


class Pairs(Client):
    generic_loops = True

    def __init__(self):
        self.built, self.target = [], []

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF and func.name not in ('_build_runlist',)

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def assume(self, t):
        return False if is_term(t) else None

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        if nm == 'Process':
            self.target.append((dict(kwargs), args, I.loc(node)))
        if nm == 'record_completed_case':
            self.built.append((args, I.loc(node), dict(st.heap)))
        return None


def resolve_zip(t):
    return [x for x in T.subterms(t) if x[0] == 'call' and ext_tail(x[1]) == 'zip'] if is_t(t) else []


def is_t(t):
    return isinstance(t, tuple)


def pairing(rep, repo, f, cls):
    """values returned by a worker are attributed to the names they were collected for"""
    c = Pairs()
    I, out = run(repo, c, f, self_cls=cls)
    rep.need(c.target and c.built, 'multiprocessing: no worker started or no case recorded')
    kw, args, loc = c.target[0]
    a = kw.get('args')
    resp = a[1][1] if a is not None and a[0] == 'tuple' and len(a[1]) > 1 else None
    first = second = None
    if resp is not None and resp[0] == 'bin' and resp[1] == '+':
        first, second = resp[2], resp[3]
    n = 0
    for args, loc, heap in c.built:
        case = args[1] if len(args) > 1 else T.NONE
        parts = [(k[2], v) for k, v in heap.items() if k[0] == 'sub' and k[1] in T.alts(case)]
        for k, v in parts:
            got = names_of(k, v)
            if got is not None:
                rep.ob('multiprocessing/section', got, 'section %s of a completed case is filled from %s' % (T.show(k), T.show(v)), loc, 'pairing')
        for z in [y for k, x in parts for y in resolve_zip(x)]:
            n += 1
            names, vals = z[2]
            off = None
            if vals[0] == 'sub' and vals[2][0] == 'slice':
                off, vals = vals[2], vals[1]
            if names == first:
                ok = off is None or off[1] in (T.NONE, ('const', 0)) and (off[2] == T.NONE or is_len(off[2], first))
            elif names == second:
                ok = off is not None and is_len(off[1], first) and off[2] == T.NONE
            else:
                ok = False
            rep.ob('multiprocessing/pairing', ok, 'the names %s are paired with the wrong values %s' % (T.show(names), T.show(z[2][1])), loc, 'pairing')
    rep.need(n, 'multiprocessing: the values of a completed case were not found')


def names_of(key, v):
    want = {('const', 'u'): 'unames', ('const', 'p'): 'pnames'}.get(key)
    has = {x for x in ('unames', 'pnames') if T.contains(v, lambda y: y == ('const', x))}
    return None if want is None or not has else want in [x for z in resolve_zip(v) for x in ('unames', 'pnames')
                                                        if T.contains(z[2][0], lambda y: y == ('const', x))]


def is_len(t, x):
    return t[0] == 'call' and t[1] == ('ext', 'len') and t[2] == (x,)


def serial(rep, repo, f):
    class S(Client):
        generic_loops = True

        def __init__(self):
            self.bad, self.n = [], 0

        def init_auto(self):
            return (0, 0)

        def inline(self, I, fn, func):
            return fn[0] in ('func', 'closure')

        def nothrow(self, I, st, fn, node):
            return fn != ('param', 'func')

        def implicit_fault(self, I, st, node):
            return False

        def assume(self, t):
            return True if t == ('is', ('param', 'comm'), T.NONE) else None

        def on_call(self, I, st, fn, args, kwargs, node):
            if fn == ('param', 'func'):
                self.n += 1
                I.excs.append((st.setauto((st.auto[0] + 1, st.auto[1])), ('exc', 'func')))
                return [(st.setauto((st.auto[0] + 1, st.auto[1])), ('fresh', ('func', node.lineno)))]
            if fn[0] == 'attr' and fn[2] == 'append':
                return [(st.setauto((st.auto[0], st.auto[1] + 1)), T.NONE)]
            return None

        def on_loop_back(self, I, st, node):
            if st.auto != (1, 1):
                self.bad.append(I.loc(node))
            return st.setauto((0, 0))
    c = S()
    I, out = run(repo, c, f)
    rep.need(c.n, 'serial evaluation not found')
    rep.ob('concurrent-serial/once', not c.bad, 'a case is not run exactly once with exactly one result', (c.bad or [where(f)])[0], 'local-run')
    rep.ob('concurrent-serial/contained', not out.exc, 'a failing case ends the evaluation of the others', where(f), 'local-run')
