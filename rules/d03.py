"""D03: derivative approximation leaves the model as found (frame analysis of the heap)."""
from sa import terms as T
from sa.interp import Client
from sa.util import *

EXPLANATION = (
    'Frame analysis: the approximation routines are interpreted over value numbers; every write to an '
    'element of the model vectors (values, imaginary parts, result vector) or to the complex-step switch '
    'is tracked, and at every exit - return and exception edge of each model evaluation - the cell must '
    'hold exactly its entry value again.  Wrapper classes used for complex step are checked to own private '
    'copies, so stepping them cannot reach the model, and model evaluations are checked to receive them.')
RULE = 'heap cell at exit == heap cell at entry, on all normal and exceptional exits; wrappers hold fresh storage'
ASSUMPTIONS = ['a loop is analysed for one generic element', 'model evaluations write only their own outputs, '
               'which the result-vector clause covers']

VECS = ('params', 'unknowns', 'resids', 'inputs')
RUNNERS = ('_sys_solve_nonlinear', '_sys_apply_nonlinear', 'solve_nonlinear', 'apply_nonlinear')
FRESH = ('zeros', 'ones', 'empty', 'array', 'copy', 'astype', 'zeros_like', 'complex', 'full', 'deepcopy')


def fresh(t):
    if t[0] == 'call':
        nm = ext_tail(t[1])
        if nm in FRESH or t[1][0] == 'class' or nm in ('OrderedDict', 'dict', 'list', 'set'):
            return True
        if nm in ('asarray', 'asfarray', 'asanyarray') and (len(t[2]) > 1 or t[3]):
            return True      # conversion to another dtype
        return False
    if t[0] in ('bin', 'un', 'const', 'dict', 'list', 'comp', 'tuple', 'fresh', 'fstr', 'set'):
        return True
    return False


def model_root(t, depth=0):
    """does this object term denote storage of the model vectors?"""
    if fresh(t) or depth > 40:
        return False
    if t[0] == 'param':
        return t[1] in VECS
    if t[0] == 'attr':
        if t[1] == T.SELF and t[2] in VECS:
            return True
        return model_root(t[1], depth + 1)
    if t[0] == 'sub':
        return model_root(t[1], depth + 1)
    if t[0] == 'phi':
        return any(model_root(x, depth + 1) for x in t[1])
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('reshape', 'ravel', 'view', 'get'):
        return model_root(t[1][1], depth + 1)
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in ('asarray', 'atleast_1d', 'ravel', 'reshape') and t[2]:
        return model_root(t[2][0], depth + 1)
    return False


def result_cell(c):
    return c[0] == 'sub' and c[1][0] == 'attr' and c[1][2] in ('vec', 'imag_vec')


class FD(Client):
    generic_loops = True
    max_states = 60

    def __init__(self):
        self.evals = []
        self.writes = set()

    def init_auto(self):
        return frozenset()

    def keyfact(self, t):
        # step form / type decisions and loop emptiness
        return t[0] in ('eq', 'nonempty', 'is')

    def track(self, I, st, cell, node):
        obj = cell[1] if cell[0] in ('sub', 'attr') else cell
        if cell[0] == 'attr' and cell[2] == 'in_complex_step':
            pass
        elif cell[0] == 'sub' and model_root(obj):
            pass
        elif cell[0] == 'local' and False:
            pass
        else:
            return st
        self.writes.add((cell, I.loc(node)))
        return st.setauto(st.auto | {cell}, (I.loc(node), 'write ' + T.show(cell)))

    def on_store(self, I, st, cell, value, node):
        return self.track(I, st, cell, node)

    def on_load(self, I, st, cell, node):
        # keep a load through a merged base atomic, so that saving and restoring correlate
        if cell[0] in ('attr', 'sub') and cell[1][0] == 'phi' and cell not in st.heap and model_root(cell):
            return cell
        return None

    def on_aug(self, I, st, cell, old, op, value, node):
        if cell[0] == 'local':
            # in-place update of an alias of model storage
            if old[0] in ('attr', 'sub') and model_root(old):
                c = ('sub', old, ('slice', T.NONE, T.NONE, T.NONE))
                self.writes.add((c, I.loc(node)))
                st = st.setauto(st.auto | {c}, (I.loc(node), 'write ' + T.show(c)))
                return st.put(c, ('bin', op, c, value))
            return st
        return self.track(I, st, cell, node)

    def on_call(self, I, st, fn, args, kwargs, node):
        if ext_tail(fn) in RUNNERS:
            self.evals.append((fn, args, I.loc(node)))
            I.excs.append((st, ('exc', 'model')))
            return [(st, ('fresh', ('ran', node.lineno)))]
        return None

    def nothrow(self, I, st, fn, node):
        return True          # only model evaluations are fault points here


def analyse(repo, rep, cls, meth):
    f = repo.method(cls, meth)
    c = FD()
    I, out = run(repo, c, f, self_cls=cls)
    rep.fn(f.qualname, *I.inlined)
    key = '%s.%s' % (cls.name, meth)
    rep.need(c.evals, '%s: no model evaluation found' % key)
    rep.saw('model_evaluations', len({x[2] for x in c.evals}))
    rep.saw('tracked_writes', len({w for _, w in c.writes}))
    pairs = [(st, False) for st, _ in out.ret] + [(st, True) for st, e in out.exc if e != ('exc', 'implicit')]
    n = 0
    for st, exc in pairs:
        for cell in st.auto:
            n += 1
            v = st.heap.get(cell, cell)
            vals = [simp_all(a) for a in T.alts(v)]
            same = v == cell or simp_all(v) == simp_all(cell)
            if result_cell(cell):
                # result vector: must be back on return; after a failing run the outputs are undefined anyway
                if exc:
                    continue
                base = simp_all(('attr', cell[1][1], 'vec'))
                ok = same or all(a == simp_all(cell) or a == base or a == simp_all(cell[1]) for a in vals)
                what = 'result vector'
            else:
                ok = same or all(a == simp_all(cell) for a in vals)
                what = 'complex-step switch' if cell[0] == 'attr' else (
                    'imaginary part' if mentions_attr(cell, 'imag_val') else 'input value')
            trail = '; '.join('%s %s' % x for x in st.trail[-3:])
            rep.ob('%s/%s/%s' % (key, what, 'exception' if exc else 'return'), ok,
                   '%s %s holds %s when the routine %s (%s)' % (
                       what, T.show(cell)[:80], ' | '.join(T.show(x)[:80] for x in vals),
                       'raises' if exc else 'returns', trail), where(f), 'frame')
    return c, n


def check(repo, rep, tier):
    system = repo.cls('System')
    comp = repo.cls('Component')
    done = set()
    n = 0
    for cls in [system] + repo.subclasses(system, strict=True):
        for m in ('fd_jacobian', 'complex_step_jacobian'):
            f = repo.method(cls, m)
            if f and f.node not in done:
                done.add(f.node)
                c, k = analyse(repo, rep, cls, m)
                n += k
                if m == 'complex_step_jacobian':
                    wrappers(repo, rep, cls, m, c)
    ec = repo.cls('ExecComp')
    c, k = analyse(repo, rep, ec, 'linearize')
    wrappers(repo, rep, ec, 'linearize', c)
    rep.need(n > 0, 'no perturbation found in fd_jacobian')
    # storage owned by the wrappers
    for nm in ('ComplexStepTgtVecWrapper', 'ComplexStepSrcVecWrapper'):
        private(repo, rep, repo.cls(nm))
    private(repo, rep, repo.cls('_TmpDict'))


def wrappers(repo, rep, cls, meth, c):
    for fn, args, loc in c.evals:
        for i, a in enumerate(args[:2]):
            rep.saw('wrapper_arguments')
            rep.ob('%s.%s/evaluates-copies/%d' % (cls.name, meth, i), not model_root(a),
                   'the stepped evaluation works on the model\'s own storage %s' % T.show(a), loc, 'ownership')


class Own(Client):
    generic_loops = True

    def __init__(self):
        self.stores = []

    def on_store(self, I, st, cell, value, node):
        self.stores.append((cell, value, I.loc(node)))
        return st

    def on_aug(self, I, st, cell, old, op, value, node):
        self.stores.append((cell, ('aug',), I.loc(node)))
        return st


INNER = ('vecwrap', '_inner')


def private(repo, rep, cls):
    """no method of the wrapper stores into, or keeps an alias of, the wrapped vector's storage"""
    for name in sorted(cls.methods):
        f = repo.method(cls, name)
        c = Own()
        I, out = run(repo, c, f, self_cls=cls)
        rep.fn(f.qualname)
        for cell, value, loc in c.stores:
            rep.saw('wrapper_stores')

            def inner(t, d=0):
                if t[0] in ('attr', 'sub') and t[1] == T.SELF and t[0] == 'attr' and t[2] in INNER:
                    return True
                if fresh(t):
                    return False
                if t[0] in ('attr', 'sub'):
                    if t[0] == 'attr' and t[2] in ('meta', 'shape', 'size', '_cache_scalers'):
                        return False
                    return inner(t[1], d + 1)
                if t[0] == 'phi':
                    return any(inner(x) for x in t[1])
                if t[0] == 'param' and name == '__init__' and t[1] in ('vec', 'inner'):
                    return True
                if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('reshape', 'ravel', 'view', 'get'):
                    return inner(t[1][1])
                if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in ('asarray', 'atleast_1d', 'ravel') and t[2]:
                    return inner(t[2][0])
                return False
            wr = cell[0] in ('sub', 'attr') and inner(cell[1])
            rep.ob('%s.%s/no-write-through' % (cls.name, name), not wr,
                   'writes into the wrapped vector: %s' % T.show(cell), loc, 'ownership')
            holder = cell[0] == 'attr' and cell[1] == T.SELF and cell[2] in INNER + ('vec',)
            elementwise = cell[0] == 'sub' and cell[2][0] == 'slice'
            alias = not holder and not elementwise and value[0] != 'aug' and inner(value)
            rep.ob('%s.%s/no-alias' % (cls.name, name), not alias,
                   '%s keeps an alias of the wrapped storage (%s)' % (T.show(cell), T.show(value)), loc, 'ownership')
