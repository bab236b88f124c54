"""X01: an external command counts as run only when it ran to its end, succeeded and left its files."""
import ast

from sa import terms as T
from sa.interp import Client
from sa.util import *

EXPLANATION = (
    'Path analysis of the component that wraps an external command and of the process helper below it.  On every path the '
    'facts known about the exit status, the missing input and output files and the failure option are collected together with '
    'the events start, wait, stop and close: a normal return needs the inputs found before the start, an exit status known to be '
    'zero (a time-out has none) and the outputs found after the wait; every raise has the class the failure option asks for; '
    'a process given up on is stopped with its group, which is its own; opened files are closed on every exit.')
RULE = 'return => inputs checked < start < wait, status == 0, outputs checked after; no status => stopped; raise class by fail_hard'
ASSUMPTIONS = ['a POSIX platform for process groups', 'os.path.exists and Popen.poll report the truth']

RULES = ('input', 'status', 'output', 'class', 'code', 'streams')


def opt(t, name):
    return T.contains(t, lambda x: x == ('const', name))


def known_zero(facts, rc):
    if facts.get(('eq', rc, ('const', 0))) is True or facts.get(('eq', ('const', 0), rc)) is True:
        return True
    return not_none(facts, rc) and facts.get(rc) is False


def not_none(facts, rc):
    return facts.get(('is', rc, T.NONE)) is False or facts.get(('is', T.NONE, rc)) is False or facts.get(rc) is True or \
        any(k[0] in ('lt', 'le') and rc in k[1:] for k in facts)


def is_none(facts, rc):
    return facts.get(('is', rc, T.NONE)) is True or facts.get(('is', T.NONE, rc)) is True or rc == T.NONE


def absent(facts, name):
    """does the path know that no file of this option is missing?"""
    for k, v in facts.items():
        if not opt(k, name) or T.contains(k, lambda x: x[0] == 'comp' and any(
                isinstance(y, tuple) and T.contains(y, lambda z: z[0] == 'comp' and opt(z, name)) for y in x[1:])):
            continue            # (a selection of the files is not all of them)
        if v is False and k[0] in ('comp', 'nonempty', 'call', 'mu', 'phi', 'fresh'):
            return True
        if k[0] == 'lt' and k[1] == ('const', 0) and v is False or k[0] == 'le' and k[2] == ('const', 0) and v is True:
            return True         # length of the list of missing files
        if k[0] == 'eq' and v is True and ('const', 0) in k[1:]:
            return True
        if v is True and k[0] == 'call' and ext_tail(k[1]) == 'all':
            return True
    return False


class Cmd(Client):
    """auto = (started, status term, facts at the start)"""
    max_states = 900

    def __init__(self):
        self.starts, self.waits = [], []

    def init_auto(self):
        return (False, None, (False, False))

    def keyfact(self, t):
        return not T.contains(t, lambda x: x[0] == 'ext' and 'platform' in str(x[-1]))

    def assume(self, t):
        if t[0] == 'un' and T.contains(t, lambda x: x[0] == 'ext' and str(x[1]).startswith('signal.')):
            return True             # the number of a signal
        return None

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF or fn[0] in ('func', 'closure') and func.module.name.split('.')[-1] in ('external_code', 'shell_proc')

    def nothrow(self, I, st, fn, node):
        return True

    def implicit_fault(self, I, st, node):
        return False

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        started, rc, seen = st.auto
        if fn[0] == 'class' and fn[1].endswith('ShellProc'):
            self.starts.append((args, dict(kwargs), I.loc(node)))
            seen = (absent(st.facts, 'external_input_files'), absent(st.facts, 'external_output_files'))
            t = ('call', fn, (), (), ('proc', node.lineno))
            return [(st.setauto((True, rc, seen), (I.loc(node), 'start')), t)]
        if nm == 'wait' and fn[0] == 'attr':
            self.waits.append((args, dict(kwargs), I.loc(node)))
            t = ('fresh', ('wait', node.lineno))
            return [(st.setauto((started, ('sub', t, ('const', 0)), seen), (I.loc(node), 'wait')), t)]
        return None


def cls_of(e):
    """name of the raised class or None"""
    if e[0] == 'raised' and e[1][0] == 'call':
        c = e[1][1]
        return str(c[1]).split(':')[-1].split('.')[-1] if c[0] in ('class', 'ext') else (c[1] if c[0] == 'global' else None)
    return None


def component(repo, rep):
    cls = repo.cls('ExternalCode')
    f = repo.method(cls, 'solve_nonlinear')
    rep.need(f is not None, 'ExternalCode.solve_nonlinear not found')
    c = Cmd()
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    bad = []
    decided = {n: any(opt(k, n) and T.contains(k, lambda x: x[0] == 'comp') for st, _ in out.ret + out.exc for k in st.facts) for n in ('external_input_files', 'external_output_files')}
    code = ('attr', T.SELF, 'return_code')
    for st, _ in out.ret:
        started, rc, (inp, outp) = st.auto
        rep.saw('returning_paths')
        if not started or rc is None:
            bad.append(('status', 'it returns normally although no command was run'))
            continue
        if not known_zero(st.facts, rc):
            bad.append(('status', 'it returns normally although the command may have %s' % (
                'failed' if not_none(st.facts, rc) else 'run out of time or failed')))
        if decided['external_input_files'] and not inp:
            bad.append(('input', 'the command is started without knowing that its input files exist'))
        if decided['external_output_files'] and (outp or not absent(st.facts, 'external_output_files')):
            bad.append(('output', 'it returns normally without having found the output files after the command ended'))
        v = st.heap.get(code)
        if v is not None and rc not in T.alts(v) and not (v == ('const', 0)):
            bad.append(('code', 'the return code is %s after a successful run' % T.show(v)))
    for st, e in out.exc:
        nm = cls_of(e)
        started, rc, _ = st.auto
        rep.saw('raising_paths')
        hard = [v for k, v in st.facts.items() if k[0] in ('sub', 'attr', 'call') and opt(k, 'fail_hard')]
        timed = rc is not None and is_none(st.facts, rc)
        miss = any(opt(k, 'external_input_files') and v is True and T.contains(k, lambda x: x[0] == 'comp') for k, v in st.facts.items())
        if nm in ('RuntimeError', 'AnalysisError', 'ValueError') and (started or miss):
            if timed:
                if nm != 'AnalysisError':
                    bad.append(('class', 'a time-out raises %s, not AnalysisError' % nm))
            elif hard and nm != ('RuntimeError' if hard[0] else 'AnalysisError'):
                bad.append(('class', 'with fail_hard %s a failure raises %s' % (hard[0], nm)))
        v = st.heap.get(code)
        if v is not None:
            zero = [a for a in T.alts(v) if a == ('const', 0)]
            if zero:
                bad.append(('code', 'the return code is zero after a failure'))
            if rc is not None and not_none(st.facts, rc) and rc not in T.alts(v):
                bad.append(('code', 'the return code is %s, not the status of the command' % T.show(v)))
    for n in ('external_input_files', 'external_output_files'):
        used = any(isinstance(x, ast.Constant) and isinstance(x.value, str) and (x.value in (n, 'external_') or
            'external_' in x.value and ('%' in x.value or '{' in x.value)) for g in I.inlined | {f.qualname}
                   for m in ast.walk(cls.node) if isinstance(m, ast.FunctionDef) and m.name == g.split('.')[-1] for x in ast.walk(m))
        if not decided[n] and not used:
            bad.append((n.split('_')[1], '%s is never looked at when the command is run' % n))
    for lc in ast.walk(f.module.tree):
        if isinstance(lc, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for cond in lc.generators[0].ifs:
                s = ast.unparse(cond)
                if 'exists(' in s and 'not' not in s and isinstance(cond, ast.Call):
                    bad.append(('input', 'the files found missing are those that exist'))
    names = ('args', 'stdin', 'stdout', 'stderr', 'env')
    for args, kw, loc in c.starts:
        a = dict(zip(names, args)); a.update(kw)
        for n in names[1:4]:
            if a.get(n) != ('attr', T.SELF, n):
                bad.append(('streams', 'the command gets %s as its %s' % (T.show(a[n]) if n in a else 'nothing', n)))
        if not opt(a.get('env', T.NONE), 'env_vars') or not opt(a.get('args', T.NONE), 'command'):
            bad.append(('streams', 'the command or its environment is not the one of the options'))
    for args, kw, loc in c.waits:
        a = dict(zip(('poll_delay', 'timeout'), args)); a.update(kw)
        for n in ('poll_delay', 'timeout'):
            if not opt(a.get(n, T.NONE), n):
                bad.append(('streams', 'the option %s is not used when waiting for the command' % n))
    for r in RULES:
        hits = sorted({m for k, m in bad if k == r})
        rep.ob('ExternalCode/' + r, not hits, hits[0] if hits else '', where(f), 'external command')


class Proc(Client):
    max_states = 900
    loop_passes = 3

    def __init__(self):
        self.popen, self.kills, self.ups = [], [], []

    def init_auto(self):
        return (False, False)       # stopped, files closed

    def keyfact(self, t):
        return True

    def inline(self, I, fn, func):
        return fn[0] == 'attr' and fn[1] == T.SELF and func.name not in ('close_files', 'terminate', 'poll', 'wait', 'error_message')

    def assume(self, t):
        if t[0] == 'eq' and ('const', 'win32') in t[1:]:
            return False
        return None

    def nothrow(self, I, st, fn, node):
        return ext_tail(fn) not in ('poll', 'sleep', 'terminate', '__init__')

    def implicit_fault(self, I, st, node):
        return False

    def on_call(self, I, st, fn, args, kwargs, node):
        nm = ext_tail(fn)
        stop, closed = st.auto
        if nm == 'terminate':
            return [(st.setauto((True, closed), (I.loc(node), nm)), T.NONE)]
        if nm == 'close_files':
            return [(st.setauto((stop, True), (I.loc(node), nm)), T.NONE)]
        if nm == 'poll':
            I.excs.append((st, ('exc', nm)))
            return [(st, ('fresh', ('poll', node.lineno)))]
        if nm == '__init__':
            self.popen.append((args, dict(kwargs), dict(st.facts), I.loc(node)))
        if nm in ('killpg', 'kill'):
            self.kills.append((nm, args, I.loc(node)))
        if nm == 'update' and fn[0] == 'attr':
            self.ups.append((fn[1], args))
        return None


def process(repo, rep):
    cls = repo.cls('ShellProc')
    f = repo.method(cls, 'wait')
    c = Proc()
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    bad = {}
    limit = ('param', 'timeout')
    for st, v in out.ret:
        rep.saw('wait_paths')
        if v[0] != 'tuple' or not v[1]:
            continue
        rc = v[1][0]
        stop, closed = st.auto
        if not not_none(st.facts, rc) and not stop:
            bad['stop'] = 'it stops waiting for a command that is still running without stopping it'
        if stop and not (st.facts.get(('lt', ('const', 0), limit)) is True or st.facts.get(('le', limit, ('const', 0))) is False
                         or st.facts.get(limit) is True or st.facts.get(('eq', limit, ('const', 0))) is False):
            bad['limit'] = 'a command without a time limit may be stopped'
        if rc[0] == 'const' and rc != T.NONE:
            bad['status'] = 'the status reported is always %s' % T.show(rc)
        if not closed:
            bad['close'] = 'files opened for the command stay open'
    for st, e in out.exc:
        if not st.auto[1]:
            bad['close'] = 'files opened for the command stay open when waiting for it fails'
    for r in ('stop', 'limit', 'status', 'close'):
        rep.ob('ShellProc.wait/' + r, r not in bad, bad.get(r, ''), where(f), 'process')
    f = repo.method(cls, 'terminate')
    c = Proc()
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    pid = ('attr', T.SELF, 'pid')
    ok = any(T.contains(a[0], lambda x: x == pid) for nm, a, loc in c.kills if nm == 'killpg' and a)
    rep.ob('ShellProc.terminate/group', ok, 'the command is not stopped together with its children', where(f), 'process')
    group = ok
    f = repo.method(cls, '__init__')
    c = Proc()
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    rep.need(c.popen, 'ShellProc.__init__: the start of the process was not found')
    for args, kw, facts, loc in c.popen:
        if '**' in kw:
            continue
        rep.saw('process_starts')
        own = kw.get('start_new_session') == ('const', True) or 'preexec_fn' in kw and T.contains(
            kw['preexec_fn'], lambda x: str(x[-1]).split('.')[-1] in ('setsid', 'setpgrp'))
        rep.ob('ShellProc/own-group', own or not group, 'the command shares the process group of its caller, which is what gets stopped', loc, 'process')
        env = kw.get('env', T.NONE)
        given = facts.get(('param', 'env'))
        if env == T.NONE:
            rep.ob('ShellProc/environment', given is not True, 'the environment given is not used', loc, 'process')
        else:
            shared = env[0] == 'ext' and env[1].endswith('environ') or env == ('param', 'env')
            rep.ob('ShellProc/environment', not shared, 'the command gets %s itself, not a copy of the environment extended by it' % T.show(env), loc, 'process')
            if given is True and not shared and env[0] == 'call' and ext_tail(env[1]) == 'copy':
                rep.ob('ShellProc/environment', any(o == env and a[:1] == (('param', 'env'),) for o, a in c.ups),
                       'the environment variables given are not added', loc, 'process')
        for n in ('stdin', 'stdout', 'stderr'):
            v = kw.get(n, T.NONE)
            rep.ob('ShellProc/' + n, v == T.NONE and facts.get(('param', n)) is False or T.contains(v, lambda x: x == ('param', n)),
                   'the command gets %s as its %s' % (T.show(v), n), loc, 'process')
    open_ = [1 for st, e in out.exc if not st.auto[1]]
    rep.ob('ShellProc/close', not open_, 'files opened for the command stay open when it cannot be started', where(f), 'process')
    for name in ('check_call',):
        f = repo.func('shell_proc.' + name)
        c = Cmd()
        I, out = run(repo, c, f)
        rep.fn(f.qualname)
        hits = [st for st, _ in out.ret if st.auto[1] is None or not known_zero(st.facts, st.auto[1])]
        rep.ob('check_call/status', not hits, 'it returns normally although the command may not have ended with status zero', where(f), 'process')


def check(repo, rep, tier):
    component(repo, rep)
    process(repo, rep)
