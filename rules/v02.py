"""V02: every variable has a block of its own in every vector, and a subsystem's vectors are views of its parent's."""
import ast

from sa import terms as T
from sa.events import Trace, dict_t, traces
from sa.slices import alternatives, nonempties, outer_loops, pn, picked, starts_at, tr, unit, aliases
from sa.util import *

EXPLANATION = (
    'The loops that lay out a vector are interpreted for one generic variable over value numbers, with the running offset as an '
    'unknown: the block stored for the variable is compared with (offset, offset + size), the offset handed to the next variable '
    'with the end of that block, and the decision to store a block with the declared kind of the variable. The storage behind '
    'the blocks, the views handed to subsystems, the offsets of derivative vectors in shared storage, the size tables and the '
    'selection of entries are compared the same way.')
RULE = 'block == (offset, offset + size); next offset == end of block; view shares value, imaginary part and storage with its parent'
ASSUMPTIONS = ['a loop is analysed for one generic variable and an arbitrary offset (induction)', 'single process vectors; the MPI implementation is not analysed']

NONE = T.NONE


def sub(t, k):
    return ('sub', t, T.const(k))


def truth(facts, meta, key):
    """whether an entry of a metadata dictionary is set, as far as a path decided it"""
    for k, x in facts.items():
        if k == ('in', T.const(key), meta) and x is False:
            return False
        if (k[0] in ('sub', 'get')) and k[1] == meta and k[2] == T.const(key):
            return x
        if k[0] == 'is' and k[1][0] in ('sub', 'get') and k[1][1] == meta and k[1][2] == T.const(key):
            if k[2] == T.TRUE:
                return x
    return None


def decided(facts, t):
    for k, x in facts.items():
        if k == t:
            return x
        if k[0] == 'is' and k[1] == t and k[2] in (T.TRUE, T.FALSE):
            return x if k[2] == T.TRUE else not x
    return None


def has_acc(x):
    return isinstance(x, ast.Call) and (getattr(x.func, 'id', None) == 'Accessor' or getattr(x.func, 'attr', None) == 'Accessor')


def assigned(body):
    return sorted({n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})


def passes(repo, g, loop, cls, calls=(), cells=lambda c: True, **kw):
    """one generic pass of a loop: (events, facts, values of the names afterwards) of every way it ends"""
    u = unit(g, *(aliases(g, loop) + loop.body))
    c = Trace(calls=calls, cells=cells, **kw)
    c.havoc_containers = True
    res, out, I = traces(repo, u, cls, client=c)
    done = [(ev, facts, st.env) for ev, facts, v, st in res]
    done += [(st.auto, st.facts, st.env) for st in out.cont]
    return u, done, I


def acc_args(repo, v, kws):
    """argument name -> term of an Accessor call event"""
    f = repo.func('Accessor.__init__')
    names = [a.arg for a in f.node.args.args[1:]]
    dflt = dict(zip(names[len(names) - len(f.node.args.defaults):], f.node.args.defaults))
    got = dict(zip(names, v))
    got.update(dict(kws))
    for n, d in dflt.items():
        if n not in got and isinstance(d, ast.Constant):
            got[n] = T.const(d.value)
    return got


def entries(repo, ev):
    """(vector, name, accessor arguments, where) of everything put into a vector's table"""
    out = []
    for e in ev:
        if e[0] == 'set' and e[1][0] == 'sub' and e[1][1][0] == 'attr' and e[1][1][2] == '_dat':
            v = e[2]
            if v[0] == 'call' and ext_tail(v[1]) == 'Accessor':
                out.append((e[1][1][1], e[1][2], acc_args(repo, v[2], v[3]), e[3]))
            else:
                out.append((e[1][1][1], e[1][2], None, e[3]))
    return out


def size_of(ev, meta, upto=None):
    """the size in a metadata dictionary after the stores of a path"""
    t = sub(meta, 'size')
    for e in ev:
        if e[0] == 'set' and e[1] == sub(meta, 'size'):
            t = e[2]
    return t


def block(rep, key, ev, facts, env, args, w, want):
    """the block of one variable and the offset of the next; returns the names of the offset"""
    s = args['slice']
    if s == NONE:
        rep.ob(key + '/has a block', not want, 'a numeric variable of this process is given no block', w, 'block')
        bad = [n for n, v in env.items() if v != ('param', n) and v[0] == 'bin' and T.contains(v, lambda x: x == ('param', n)) and T.contains(v, lambda x: x == T.const('size'))]
        rep.ob(key + '/no block, no space', not bad, 'a variable without a block moves the offset of the next', w, 'block')
        return set()
    rep.ob(key + '/no block', bool(want), 'an object or a variable of another process is given a block', w, 'block')
    ok = s[0] == 'tuple' and len(s[1]) == 2
    rep.ob(key + '/block', ok, 'the block is %s' % T.show(s), w, 'block')
    if not ok:
        return set()
    a, b = s[1]
    size = size_of(ev, args['meta'])
    rep.ob(key + '/size', T.same(('bin', '-', b, a), size), 'the block from %s to %s is not of the declared size' % (T.show(a)[:80], T.show(b)[:120]), w, 'block')
    names = {n for n, v in env.items() if a == ('param', n)}
    ok = a[0] == 'param' and a[1] in env
    rep.ob(key + '/start', ok, 'the block starts at %s' % T.show(a)[:120], w, 'block')
    if ok:
        rep.ob(key + '/next', T.same(env[a[1]], b), 'the next block starts at %s, this one ends at %s' % (T.show(env[a[1]])[:100], T.show(b)[:100]), w, 'block')
        return {a[1]}
    return set()


def tail(repo, f, g, loop):
    """what a routine does after the loop (or the call of the helper that holds it)"""
    for i, s in enumerate(f.node.body):
        for n in ast.walk(s):
            if n is loop or g is not f and isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', None)) == g.name:
                return i
    return None


def source(repo, rep):
    cls = repo.cls('SrcVecWrapper')
    f = repo.method(cls, 'setup')
    rep.fn(f.qualname)
    loops = outer_loops(repo, f, has_acc)
    rep.need(len(loops) == 1, 'SrcVecWrapper.setup: %d loops lay out the vector' % len(loops))
    g, loop = loops[0]
    u, done, I = passes(repo, g, loop, cls, calls=('Accessor', 'is_relevant'))
    w = where(g, loop)
    rep.need(done, 'SrcVecWrapper.setup: not understood')
    offs = set()
    ud = [x for x in loop_vars(loop)]
    for ev, facts, env in done:
        es = entries(repo, ev)
        key = 'source vector'
        rel = relevant(facts)
        if not es:
            rep.ob(key + '/stored', rel is False, 'a relevant variable is left out of the vector', w, 'block')
            continue
        rep.saw('layouts of a variable')
        rep.ob(key + '/relevant', rel is True, 'a variable that is not relevant is given a place', w, 'block')
        rep.ob(key + '/once', len(es) == 1 and es[0][2] is not None, 'a variable is stored %d times' % len(es), w, 'block')
        vec, nm, args, loc = es[0]
        if args is None:
            continue
        meta = args['meta']
        pbo, rem = truth(facts, meta, 'pass_by_obj'), truth(facts, meta, 'remote')
        want = None if pbo is None and rem is not True or rem is None and pbo is not True else pbo is False and rem is False
        if want is None:
            rep.ob('SrcVecWrapper.setup/kind', False, 'whether a variable gets a block does not depend on its kind: %s' % sorted(T.show(k)[-60:] for k in facts), loc, 'block')
            continue
        rep.ob(key + '/own vector', vec == T.SELF and args['vecwrapper'] == T.SELF, 'the variable is stored in %s' % T.show(vec), loc, 'block')
        path = ('param', loop_key(loop))
        ok = nm[0] == 'sub' and T.contains(nm[1], lambda x: x[0] == 'attr' and x[2] == 'to_prom_name') and (nm[2] == path or nm[2] == sub(meta, 'pathname') or same_entry(nm[2], meta))
        rep.ob(key + '/name', ok, 'the variable is stored as %s' % T.show(nm), loc, 'block')
        rep.ob(key + '/value', args['val'] == sub(meta, 'val'), 'the variable starts as %s' % T.show(args['val']), loc, 'block')
        offs |= block(rep, key, ev, facts, env, args, loc, want)
    rep.need(len(offs) == 1, 'SrcVecWrapper.setup: running offset not found')
    off = offs.pop()
    rep.ob('source vector/first block', starts_at(g, loop, off), 'the first block does not start at 0', w, 'block')
    storage(repo, rep, f, g, loop, cls, off, 'source vector', True)


def loop_vars(loop):
    return [n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)]


def loop_key(loop):
    return loop_vars(loop)[0]


def same_entry(k, meta):
    return meta[0] == 'sub' and meta[2] == k


def relevant(facts):
    for k, x in facts.items():
        if k[0] == 'call' and ext_tail(k[1]) == 'is_relevant':
            return x
        if k[0] == 'is' and k[2] == NONE and k[1] == ('param', 'relevance') and x is True:
            return True
        if k == ('param', 'relevance') and x is False:
            return True
    return None


def storage(repo, rep, f, g, loop, cls, off, key, src):
    i = tail(repo, f, g, loop)
    rep.need(i is not None, '%s: the layout loop was not found' % f.qualname)
    u = unit(f, *f.node.body[i + 1:])
    stop = [n for n in f.node.body[i + 1:] if any(has_acc(x) for x in ast.walk(n))]
    res, out, I = tr(repo, u, cls, calls=('Accessor', 'zeros'), cells=lambda c: c[0] in ('attr', 'sub'), keep=lambda t: not mentions(t, lambda x: x == ('param', 'missing') or x[0] == 'attr' and x[2] in ('deriv_units', '_sysdata')))
    rep.need(res, '%s: not understood' % f.qualname)
    if g is not f:
        call = f.node.body[i]
        names = loop_vars_of(call)
        rep.need(len(names) >= 1, '%s: the layout helper gives back nothing' % f.qualname)
        offp = [('param', n) for n in names]
    else:
        offp = [('param', off)]
    SH, AC = ('param', 'shared_vec'), ('param', 'alloc_complex')
    w = where(f)
    for ev, facts, v, st in res:
        rep.saw('storage paths')
        given = {k: e for k, e in (((e[1][1], e[1][2]), e[2]) for e in ev if e[0] == 'set' and e[1][0] == 'attr' and e[1][2] in ('vec', 'imag_vec', 'alloc_complex'))}
        vec = given.get((T.SELF, 'vec'))
        shared = decided_none(facts, SH)
        rep.need(shared is not None, '%s: shared storage not decided' % f.qualname)
        cx = decided(facts, AC)
        if cx is None:
            cx = next((x for k, x in facts.items() if k[0] == 'is' and k[1] == AC and k[2] == T.TRUE), None)
        if not shared:
            ok = vec is not None and any(vec == ('sub', SH, ('slice', s, o, NONE)) for o in offp for s in (NONE, T.const(0)))
            rep.ob(key + '/shared storage', ok, 'the vector is %s' % (vec and T.show(vec)), w, 'storage')
        else:
            rep.ob(key + '/storage', vec is not None and zeros(vec, offp), 'the vector is %s' % (vec and T.show(vec)), w, 'storage')
            rep.ob(key + '/complex flag', given.get((T.SELF, 'alloc_complex')) in (AC, T.const(cx) if cx is not None else AC), 'the vector does not know whether it has imaginary parts', w, 'storage')
            im = given.get((T.SELF, 'imag_vec'))
            made = sum(1 for e in ev if e[0] == 'call' and e[1] == 'zeros')
            rep.ob(key + '/imaginary apart', im is None or not zeros(im, offp) or made >= 2, 'real and imaginary part share their storage', w, 'storage')
            if cx is not None:
                rep.ob(key + '/imaginary storage', (im is not None) == bool(cx) and (im is None or zeros(im, offp)), 'the imaginary part is %s' % (im and T.show(im)), w, 'storage')
        # the blocks are views of the storage
        accs = []
        for k in nonempties(facts):
            if k == T.path('_dat') and nonempties(facts)[k]:
                accs.append(('sub', k, ('elem', k)))
        V, IM = {vec, T.path('vec')}, {given.get((T.SELF, 'imag_vec')), T.path('imag_vec')}
        for a in accs:
            pbo, rem = decided(facts, ('attr', a, 'pbo')), decided(facts, ('attr', a, 'remote'))
            mine = [e for e in ev if e[0] == 'set' and e[1][0] == 'attr' and e[1][1] == a]
            val = [e for e in mine if e[1][2] == 'val']
            img = [e for e in mine if e[1][2] == 'imag_val']
            other = [e for e in mine if e[1][2] not in ('val', 'imag_val')]
            rep.ob(key + '/accessor', not other, 'the layout changes %s' % ', '.join(e[1][2] for e in other), w, 'storage')
            if pbo:
                rep.ob(key + '/objects', not val and not img, 'an object is replaced by part of the vector', w, 'storage')
                continue
            if rem:
                rep.ob(key + '/other process', all(not T.contains(e[2], lambda x: x in V | IM) for e in val + img), 'a variable of another process is given part of the vector', w, 'storage')
                continue
            rep.need(pbo is False and rem is False, '%s: the kind of a variable is not decided' % f.qualname)
            ok = len(val) == 1 and view_of(val[0][2], V, a)
            rep.ob(key + '/block is a view', ok, 'the value is %s' % (val and T.show(val[-1][2])), val[-1][3] if val else w, 'storage')
            if cx is not None:
                ok = len(img) == (1 if cx else 0) and all(view_of(e[2], IM, a) for e in img)
                rep.ob(key + '/imaginary block is a view', ok, 'the imaginary part is %s' % (img and T.show(img[-1][2])), w, 'storage')
            if not src:
                continue
            keep = decided(facts, ('param', 'store_byobjs'))
            meta = ('attr', a, 'meta')
            puts = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and (T.contains(e[1], lambda x: x == a) or e[1][1] in [y[2] for y in val])]
            if keep:
                one = next((x for k, x in facts.items() if k[0] == 'eq' and sub(meta, 'shape') in k[1:] and T.const(1) in k[1:]), None)
                ok = len(puts) == 1 and strip_flat(puts[0][2]) == sub(meta, 'val') and puts[0][1][1] in [y[2] for y in val] + [('attr', a, 'val')] and (
                    puts[0][1][2] == ('slice', NONE, NONE, NONE) or puts[0][1][2] == T.const(0) and one is True)
                rep.ob(key + '/initial value', ok, 'the variable is initialized by %s' % '; '.join('%s = %s' % (T.show(e[1])[:80], T.show(e[2])[:60]) for e in puts), w, 'storage')
    return


def strip_flat(t):
    while t[0] == 'attr' and t[2] == 'flat' or t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('ravel', 'flatten') or t[0] == 'call' and t[1][0] == 'ext' and ext_tail(t[1]) == 'ravel':
        t = t[1] if t[0] == 'attr' else (t[1][1] if t[1][0] == 'attr' else t[2][0])
    return t


def view_of(t, base, acc):
    if t[0] != 'sub' or t[1] not in base or t[2][0] != 'slice':
        return False
    s = ('attr', acc, 'slice')
    return t[2][1] == sub(s, 0) and t[2][2] in (sub(s, 1), sub(s, -1)) and t[2][3] == NONE


def zeros(t, offp):
    return t[0] == 'call' and ext_tail(t[1]) in ('zeros',) and len(t[2]) >= 1 and (t[2][0] in offp or t[2][0][0] == 'tuple' and len(t[2][0][1]) == 1 and t[2][0][1][0] in offp)


def loop_vars_of(s):
    return [n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]


def decided_none(facts, t):
    for k, x in facts.items():
        if k == ('is', t, NONE):
            return x
        if k == t:
            return not x
    return None


# ---------------------------------------------------------------- inputs
def target(repo, rep):
    cls = repo.cls('TgtVecWrapper')
    f = repo.method(cls, 'setup')
    rep.fn(f.qualname, 'TgtVecWrapper._setup_var_meta')
    loops = outer_loops(repo, f, has_acc)
    owned, shared = [], []
    for g, loop in loops:
        u, done, I = passes(repo, g, loop, cls, calls=('Accessor', 'is_relevant', 'get_common_ancestor', 'append', 'add'), keep=lambda t: True)
        (owned if any(a[2]['slice'] != NONE for ev, facts, env in done for a in entries(repo, ev) if a[2]) else shared).append((g, loop, done))
    rep.need(len(owned) == 1 and len(shared) == 1, 'TgtVecWrapper.setup: %d + %d loops fill the vector' % (len(owned), len(shared)))
    g, loop, done = owned[0]
    w = where(g, loop)
    key = 'target vector'
    offs = set()
    CONN, MINE, SRC = ('param', 'connections'), ('param', 'my_params'), ('param', 'srcvec')
    collected = None
    for ev, facts, env in done:
        es = entries(repo, ev)
        rel = relevant(facts)
        mine = next((x for k, x in facts.items() if k[0] == 'in' and k[2] == MINE), None)
        if not es:
            rep.ob(key + '/stored', rel is False or mine is False, 'an input this system feeds is left out of the vector', w, 'block')
            if rel is not False:
                collects(rep, key, ev, facts, w)
            continue
        rep.saw('layouts of a variable')
        rep.ob(key + '/relevant', rel is True and mine is True, 'an input that is not relevant or fed elsewhere is given a place', w, 'block')
        rep.ob(key + '/once', len(es) == 1 and es[0][2] is not None, 'an input is stored %d times' % len(es), w, 'block')
        vec, nm, args, loc = es[0]
        if args is None:
            continue
        meta = args['meta']
        path = next(k[1] for k, x in facts.items() if k[0] == 'in' and k[2] == MINE)
        rep.ob(key + '/path', path == sub(meta, 'pathname'), 'the input is looked up as %s' % T.show(path), loc, 'block')
        accs = {k[1] for k in facts if k[0] == 'attr' and k[2] == 'pbo'}
        rep.need(len(accs) == 1, 'TgtVecWrapper.setup: the kind of the source is not decided')
        acc = accs.pop()
        cs = ('sub', ('sub', CONN, path), T.const(0))
        ok = acc[0] == 'sub' and acc[1] == ('attr', SRC, '_dat') and acc[2][0] == 'sub' and acc[2][2] == cs and T.contains(acc[2][1], lambda x: x == SRC)
        rep.ob(key + '/source', ok, 'the source is looked up as %s' % T.show(acc), loc, 'block')
        pbo, rem = facts[('attr', acc, 'pbo')], truth(facts, meta, 'remote')
        want = None if rem is None and pbo is not True else not pbo and not rem
        if want is None:
            rep.ob('TgtVecWrapper.setup/kind', False, 'whether a variable gets a block does not depend on its kind: %s' % sorted(T.show(k)[-60:] for k in facts), loc, 'block')
            continue
        rep.ob(key + '/own vector', vec == T.SELF and args['vecwrapper'] == T.SELF, 'the input is stored in %s' % T.show(vec), loc, 'block')
        rep.ob(key + '/name', scoped(nm, T.SELF, path), 'the input is stored as %s' % T.show(nm), loc, 'block')
        offs |= block(rep, key, ev, facts, env, args, loc, want)
        # an input without source indices is as large as its source
        idx = [x for m in (meta, ('attr', acc, 'meta')) for x in (facts.get(('in', T.const('src_indices'), m)),)]
        put = [e for e in ev if e[0] == 'set' and e[1] == sub(meta, 'size')]
        if put:
            rep.ob(key + '/size of the source', put[-1][2] == sub(('attr', acc, 'meta'), 'size') and idx == [False, False], 'the size of an input becomes %s' % T.show(put[-1][2]), loc, 'block')
        else:
            rep.ob(key + '/size kept', True in idx, 'an input without source indices is not given the size of its source', loc, 'block')
        flag = [e[2] for e in ev if e[0] == 'set' and e[1] == sub(meta, 'pass_by_obj')]
        rep.ob(key + '/object', flag == ([T.TRUE] if pbo else []), 'an input is made an object exactly if its source is one: %s' % [T.show(x) for x in flag], loc, 'block')
        if pbo:
            keep = decided(facts, ('param', 'store_byobjs'))
            own = args['val'] == ('attr', acc, 'val')
            fref = next((x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance' and k[2][1:] and mentions(k[2][1], lambda z: z[0] == 'class' and z[1].endswith(':FileRef'))), None)
            must = keep is True and rem is False and fref is False
            rep.ob(key + '/shared object', own if must else args['val'] in (sub(meta, 'val'), ('attr', acc, 'val')), 'the object of the source is not shared: %s' % T.show(args['val']), loc, 'block')
    rep.need(len(offs) == 1, 'TgtVecWrapper.setup: running offset not found')
    off = offs.pop()
    rep.ob(key + '/first block', starts_at(g, loop, off), 'the first block does not start at 0', w, 'block')
    storage(repo, rep, f, g, loop, cls, off, key, False)
    # inputs fed further up are views of the parent's
    g, loop, done = shared[0]
    n = 0
    PP = ('param', 'parent_params_vec')
    for ev, facts, env in done:
        es = entries(repo, ev)
        p = ('param', loop_key(loop))
        if not es:
            diff = [x for k, x in facts.items() if k[0] == 'eq' and p in k[1:]]
            rep.ob('inherited input/stored', diff == [False], 'an input fed further up is left out', where(g, loop), 'views')
            continue
        n += 1
        vec, nm, args, loc = es[0]
        pa = args['val'][1] if args['val'][0] == 'attr' and args['val'][2] == 'val' else NONE
        ok = pa[0] == 'sub' and pa[1][0] == 'attr' and pa[1][2] == '_dat' and pa[1][1] == PP and scoped(pa[2], PP, p)
        rep.ob('inherited input/value', ok, 'the value is %s, not that of the parent' % T.show(args['val']), loc, 'views')
        rep.ob('inherited input/description', args['meta'] == ('attr', pa, 'meta'), 'the description is %s' % T.show(args['meta']), loc, 'views')
        cx = decided(facts, ('param', 'alloc_complex'))
        obj = truth(facts, args['meta'], 'pass_by_obj')
        if obj is None:
            obj = decided(facts, ('attr', pa, 'pbo'))
        if cx and obj is not True:
            rep.ob('inherited input/imaginary part', args['imag_val'] == ('attr', pa, 'imag_val'), 'the imaginary part is %s' % T.show(args['imag_val']), loc, 'views')
        rep.ob('inherited input/not owned', args['owned'] == T.FALSE and args['slice'] == NONE, 'an inherited input takes space in the vector', loc, 'views')
        rep.ob('inherited input/name', len(es) == 1 and vec == T.SELF and scoped(nm, T.SELF, p), 'the input is stored as %s' % T.show(nm), loc, 'views')
    rep.need(n, 'TgtVecWrapper.setup: inherited inputs not found')


def scoped(nm, owner, path):
    return nm[0] == 'call' and ext_tail(nm[1]) == '_scoped_abs_name' and nm[1][1] == ('attr', owner, '_sysdata') and nm[2] == (path,)


def collects(rep, key, ev, facts, w):
    """inputs fed by a system further up are taken from the parent exactly when their source is outside this system"""
    got = [e for e in ev if e[0] == 'call' and e[1] in ('append', 'add')]
    par = decided_none(facts, ('param', 'parent_params_vec'))
    con = next(((k, x) for k, x in facts.items() if k[0] == 'in' and k[2] == ('param', 'connections')), None)
    com = [(k, x) for k, x in facts.items() if any(mentions(y, lambda z: z[0] == 'call' and ext_tail(z[1]) == 'get_common_ancestor') for y in k[1:3] if isinstance(y, tuple))]
    here = next((x for k, x in com if k[0] == 'eq'), None)
    below = next((x for k, x in com if k[0] == 'in' or k[0] == 'call' and ext_tail(k[1]) == 'startswith'), None)
    if par is True or con is not None and con[1] is False:
        want = False
    elif here is True or below is False:
        want = True
    elif here is False and below is True:
        want = False
    else:
        want = None
    rep.saw('inherited inputs')
    rep.ob(key + '/inherited', want == bool(got), 'an input fed further up is %staken over in the case %s' % ('' if got else 'not ', {T.show(k)[-60:]: x for k, x in facts.items()}), w, 'views')
    for e in got:
        rep.ob(key + '/inherited name', con is not None and e[3] == (con[0][1],), 'taken over as %s' % T.show(e[3][0]), e[-1], 'views')


def views(repo, rep):
    cls = repo.cls('VecWrapper')
    f = repo.method(cls, 'get_view')
    rep.fn(f.qualname)
    loops = outer_loops(repo, f, has_acc)
    rep.need(len(loops) == 1, 'VecWrapper.get_view: %d loops fill the view' % len(loops))
    g, loop = loops[0]
    u, done, I = passes(repo, g, loop, cls, calls=('Accessor',))
    w = where(g, loop)
    vs = loop_vars(loop)
    rep.need(len(vs) == 2, 'VecWrapper.get_view: names not understood')
    nm, pnm = ('param', vs[0]), ('param', vs[1])
    offs, bounds = set(), set()
    n = 0
    for ev, facts, env in done:
        es = entries(repo, ev)
        here = next((x for k, x in facts.items() if k[0] == 'in' and k[1] == nm), None)
        if not es:
            rep.ob('view/stored', here is False, 'a variable of the subsystem is left out of its view', w, 'views')
            continue
        n += 1
        rep.saw('layouts of a variable')
        rep.ob('view/once', len(es) == 1 and es[0][2] is not None, 'a variable is stored %d times' % len(es), w, 'views')
        vec, key, args, loc = es[0]
        if args is None:
            continue
        acc = ('sub', T.path('_dat'), nm)
        rep.ob('view/name', key == pnm and vec != T.SELF and args['vecwrapper'] == vec, 'the variable is stored as %s of %s' % (T.show(key), T.show(vec)), loc, 'views')
        rep.ob('view/value', args['val'] == ('attr', acc, 'val'), 'the value is %s, not that of the parent' % T.show(args['val']), loc, 'views')
        rep.ob('view/description', args['meta'] == ('attr', acc, 'meta'), 'the description is %s' % T.show(args['meta']), loc, 'views')
        pbo, rem = decided(facts, ('attr', acc, 'pbo')), decided(facts, ('attr', acc, 'remote'))
        want = None if pbo is None and rem is not True or rem is None and pbo is not True else not pbo and not rem
        if want is None:
            rep.ob('get_view/kind', False, 'whether a variable gets a block does not depend on its kind: %s' % sorted(T.show(k)[-60:] for k in facts), loc, 'block')
            continue
        offs |= block(rep, 'view', ev, facts, env, args, loc, want)
        cx = decided(facts, T.path('alloc_complex'))
        if want and cx:
            rep.ob('view/imaginary part', args['imag_val'] == ('attr', acc, 'imag_val'), 'the imaginary part is %s' % T.show(args['imag_val']), loc, 'views')
        if want:
            s = ('attr', acc, 'slice')
            st = [x for x, v in env.items() if v == sub(s, 0) and x not in vs]
            en = [x for x, v in env.items() if v == sub(s, 1)]
            first = first_pass(facts)
            bounds.add((first, tuple(sorted(st)), tuple(sorted(en))))
        rep.ob('view/complex flag', args['alloc_complex'] in (T.path('alloc_complex'), ('attr', vec, 'alloc_complex'), T.const(cx)), 'the view does not know whether it has imaginary parts', loc, 'views')
    rep.need(n and len(offs) == 1, 'VecWrapper.get_view: not understood')
    off = offs.pop()
    rep.ob('view/first block', starts_at(g, loop, off), 'the first block does not start at 0', w, 'views')
    # the storage of the view is the part of the parent's from its first to its last block
    i = tail(repo, f, g, loop)
    u = unit(f, *f.node.body[i + 1:])
    res, out, I = tr(repo, u, cls, calls=(), cells=lambda c: c[0] == 'attr' and c[2] in ('vec', 'imag_vec'))
    for ev, facts, v, st in res:
        puts = {e[1][2]: e[2] for e in ev if e[0] == 'set' and e[1][1] != T.SELF}
        cx = decided(facts, T.path('alloc_complex'))
        if cx is None:
            cx = next((x for k, x in facts.items() if k[0] == 'param' and 'complex' in k[1] or k[0] == 'attr' and k[2] == 'alloc_complex'), None)
        rep.need(cx is not None, 'get_view: complex storage not decided')
        rep.ob('view/storage', set(puts) == ({'vec', 'imag_vec'} if cx else {'vec'}), 'the view gets %s' % sorted(puts), where(f), 'views')
        for a, t in puts.items():
            ok = t[0] == 'sub' and t[1] == T.path(a) and t[2][0] == 'slice' and t[2][3] == NONE
            rep.ob('view/%s is a view' % a, ok, 'the storage is %s' % T.show(t), where(f), 'views')
            if not ok:
                continue
            lo, hi = t[2][1], t[2][2]
            none = none_found(facts)
            if lo == hi or hi == T.const(0):
                rep.ob('view/empty', none is True, 'a view with variables is empty', where(f), 'views')
                continue
            rep.ob('view/empty', none is not True, 'a view without variables is not empty', where(f), 'views')
            ok = lo[0] == 'param' and hi[0] == 'param'
            rep.ob('view/bounds', ok, 'the storage of a view goes from %s to %s' % (T.show(lo), T.show(hi)), where(f), 'views')
            if ok:
                for first, sts, ens in bounds:
                    rep.ob('view/first', not first or lo[1] in sts, 'the view does not start with its first block', where(f), 'views')
                    rep.ob('view/keeps its start', first or lo[1] not in sts, 'the start of the view moves', where(f), 'views')
                    rep.ob('view/last', hi[1] in ens, 'the view does not end with its last block', where(f), 'views')
    # what the view is told at its creation
    res, out, I = tr(repo, f, cls, calls=(), cells=lambda c: c[0] == 'attr' and c[2] in ('alloc_complex', 'vectype'))
    for ev, facts, v, st in res:
        got = {e[1][2]: e[2] for e in ev if e[0] == 'set'}
        for a in ('alloc_complex', 'vectype'):
            rep.ob('view/' + a, got.get(a) == T.path(a), 'the %s of a view is %s' % (a, got.get(a) and T.show(got[a])), where(f), 'views')


def first_pass(facts):
    """whether a path is the one of the first block (the start of the view is still unset)"""
    for k, x in facts.items():
        if k[0] == 'eq' and any(y[0] == 'param' for y in k[1:3]) and any(y == T.const(-1) for y in k[1:3]):
            return x
        if k[0] == 'is' and k[1][0] == 'param' and k[2] == NONE:
            return x
        if k[0] == 'lt' and k[1][0] == 'param' and k[2] == T.const(0):
            return x
    return None


none_found = first_pass


# ---------------------------------------------------------------- who is given which vector
def wiring(repo, rep):
    f = repo.func('System._create_views')
    rep.fn(f.qualname)
    VOI, PAR = ('param', 'voi'), ('param', 'parent')
    res, out, I = tr(repo, f, f.cls, calls=('get_view', 'setup'), cells=lambda c: True)
    rep.need(res, 'System._create_views: not understood')

    def slot(c):
        return c[1][2] if c[0] == 'sub' and c[1][0] == 'attr' else c[2] if c[0] == 'attr' else None
    for ev, facts, v, st in res:
        base = decided_none(facts, VOI)
        rep.need(base is not None, '_create_views: variable of interest not decided')
        got = {}
        for e in ev:
            if e[0] == 'set' and e[1][0] in ('attr', 'sub') and slot(e[1]):
                got[slot(e[1])] = (e[1], e[2], e[3])
        vs = ['dumat', 'drmat'] + (['unknowns', 'resids'] if base else [])
        for a in vs:
            cell, t, loc = got.get(a, (None, NONE, where(f)))
            src = ('attr', PAR, a) if a in ('unknowns', 'resids') else ('sub', ('attr', PAR, a), VOI)
            ok = t[0] == 'call' and ext_tail(t[1]) == 'get_view' and t[1][1] == src and t[2][:1] == (T.SELF,) and T.path('_relname_map') in t[2] + tuple(x for k, x in t[3])
            ok = ok and (cell == T.path(a) or cell == ('sub', T.path(a), VOI))
            rep.ob('subsystem/' + a, ok, '%s is %s, not a view of the parent\'s' % (a, T.show(t)[:120]), loc, 'views')
        for a in ['dpmat'] + (['params'] if base else []):
            cell = T.path(a) if a == 'params' else ('sub', T.path(a), VOI)
            vec = [e[2] for e in ev if e[0] == 'set' and e[1] == cell]
            ok = len(vec) == 1
            rep.ob('subsystem/%s/created' % a, ok, '%s is not created' % a, where(f), 'views')
            if not ok:
                continue
            ups = [e for e in ev if e[0] == 'call' and e[1] == 'setup' and e[2][1] in (vec[0], cell)]
            if a == 'params' and len(ups) == 2 and all(e[2][1] == vec[0] for e in ups):
                ups = ups[:1]
            elif a == 'dpmat' and len(ups) == 2:
                ups = ups[1:]
            rep.ob('subsystem/%s/set up' % a, len(ups) == 1, '%s is set up %d times' % (a, len(ups)), where(f), 'views')
            if len(ups) != 1:
                continue
            args = bind(repo, 'TgtVecWrapper.setup', ups[0][3], ups[0][4])
            tgt(rep, 'subsystem/' + a, args, ups[0][-1], ('attr', PAR, 'params') if a == 'params' else ('sub', ('attr', PAR, 'dpmat'), VOI), a, VOI, ('param', 'top_unknowns'), ('attr', ('attr', PAR, 'unknowns'), 'alloc_complex'))
    g = repo.func('Group._create_vecs')
    rep.fn(g.qualname)
    res, out, I = tr(repo, g, g.cls, calls=('setup', 'create_src_vecwrapper', 'create_tgt_vecwrapper'), cells=lambda c: True)
    rep.need(res, 'Group._create_vecs: not understood')
    for ev, facts, v, st in res:
        base = decided_none(facts, VOI)
        rep.need(base is not None, '_create_vecs: variable of interest not decided')
        cs = is_cs(facts)
        ups = [e for e in ev if e[0] == 'call' and e[1] == 'setup']
        kinds = {}
        for e in ups:
            tgtv = mentions(e[2][1], lambda x: x[0] == 'call' and ext_tail(x[1]) == 'create_tgt_vecwrapper')
            a = bind(repo, 'TgtVecWrapper.setup' if tgtv else 'SrcVecWrapper.setup', e[3], e[4])
            sh = a.get('shared_vec', NONE)
            name = ('d' if sh != NONE else '') + ('p' if tgtv else {'u': 'u', 'du': 'u', 'r': 'r', 'dr': 'r'}.get(a.get('vectype', T.const('u'))[1], '?'))
            kinds.setdefault(name, []).append((a, e))
        rel = [k for k, x in facts.items() if k[0] == 'attr' and k[2] == 'top_lin_gs']
        want = {'u', 'r', 'p'} if base else set()
        if base or any(facts[k] for k in rel):
            want |= {'du', 'dr', 'dp'}
        rep.ob('model/vectors', set(kinds) == want and all(len(x) == 1 for x in kinds.values()), 'the vectors set up are %s' % {k: len(x) for k, x in kinds.items()}, where(g), 'views')
        for k, lst in kinds.items():
            a, e = lst[0]
            loc = e[-1]
            if k[-1] == 'p':
                tgt(rep, 'model/' + k, a, loc, NONE, 'dpmat' if k[0] == 'd' else 'params', VOI if k[0] == 'd' else None, T.path('unknowns'), T.const(cs) if cs is not None else None, voi_none=base)
                continue
            rep.ob('model/%s/variables' % k, a.get('unknowns_dict') == T.path('_unknowns_dict'), 'laid out from %s' % T.show(a.get('unknowns_dict', NONE)), loc, 'views')
            vo = a.get('var_of_interest', NONE)
            rep.ob('model/%s/variable of interest' % k, vo == VOI if k[0] == 'd' else vo in (VOI, NONE), 'laid out for %s' % T.show(vo), loc, 'views')
            if k[0] == 'd':
                sh = a.get('shared_vec')
                ok = from_offset(sh, {'du': '_shared_du_vec', 'dr': '_shared_dr_vec'}[k], '_shared_u_offsets', VOI)
                rep.ob('model/%s/shared storage' % k, ok, 'placed at %s' % T.show(sh), loc, 'views')
            else:
                rep.ob('model/%s/values' % k, (a.get('store_byobjs', T.FALSE) == T.TRUE) == (k == 'u') or k == 'r', 'initial values are %sstored' % ('not ' if k == 'u' else ''), loc, 'views')
                if cs is not None:
                    rep.ob('model/%s/complex' % k, a.get('alloc_complex', T.FALSE) == T.const(cs), 'imaginary parts are %s' % T.show(a.get('alloc_complex', T.FALSE)), loc, 'views')


def is_cs(facts):
    for k, x in facts.items():
        if k[0] == 'eq' and T.const('cs') in k[1:] and any(mentions(y, lambda z: z == T.const('type')) for y in k[1:3]):
            return x
    return None


def from_offset(t, vec, offs, voi):
    return t is not None and t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == vec and t[2][0] == 'slice' and t[2][1] == ('sub', ('attr', t[1][1], offs), voi) and t[2][2] == NONE and t[2][3] == NONE or \
        t is not None and t[0] == 'sub' and vec_sum(t, vec, offs, voi)


def vec_sum(t, vec, offs, voi):
    """the value of the attribute may be known on the path"""
    return t[2][0] == 'slice' and t[2][2] == NONE and t[2][3] == NONE and t[2][1][0] == 'sub' and t[2][1][2] == voi and mentions_attr(t[2][1], offs) and mentions_attr(t[1], vec)


def tgt(rep, key, a, loc, parent, kind, voi, srcvec, cx, voi_none=False):
    rep.ob(key + '/parent', a.get('parent_params_vec', NONE) == parent, 'set up from %s' % T.show(a.get('parent_params_vec', NONE)), loc, 'views')
    rep.ob(key + '/variables', a.get('params_dict') == T.path('_params_dict') and a.get('my_params') == ('param', 'my_params') and a.get('connections') == T.path('connections'),
           'laid out from %s' % ', '.join(T.show(a.get(x, NONE))[:40] for x in ('params_dict', 'my_params', 'connections')), loc, 'views')
    s = a.get('srcvec')
    rep.ob(key + '/sources', s == srcvec or srcvec == T.path('unknowns') and s is not None and mentions(s, lambda x: x[0] == 'call' and ext_tail(x[1]) == 'create_src_vecwrapper') , 'sources are looked up in %s' % T.show(s or NONE), loc, 'views')
    if kind == 'dpmat':
        rep.ob(key + '/variable of interest', a.get('var_of_interest', NONE) == voi, 'laid out for %s' % T.show(a.get('var_of_interest', NONE)), loc, 'views')
        rep.ob(key + '/shared storage', from_offset(a.get('shared_vec'), '_shared_dp_vec', '_shared_p_offsets', voi), 'placed at %s' % T.show(a.get('shared_vec', NONE)), loc, 'views')
    else:
        rep.ob(key + '/objects', a.get('store_byobjs') == T.TRUE, 'objects are not shared', loc, 'views')
        rep.ob(key + '/own storage', a.get('shared_vec', NONE) == NONE, 'placed at %s' % T.show(a.get('shared_vec', NONE)), loc, 'views')
        if cx is not None:
            rep.ob(key + '/complex', a.get('alloc_complex', T.FALSE) == cx, 'imaginary parts are %s' % T.show(a.get('alloc_complex', T.FALSE)), loc, 'views')


def bind(repo, q, args, kws):
    f = repo.func(q)
    got = dict(zip([a.arg for a in f.node.args.args[1:]], args))
    got.update(dict(kws))
    return got


# ---------------------------------------------------------------- shared derivative storage
def shared(repo, rep):
    f = repo.func('System._get_shared_vec_info')
    rep.fn(f.qualname)
    voi_loops = outer_loops(repo, f, lambda x: isinstance(x, ast.Attribute) and x.attr == 'groups')
    rep.need(voi_loops, '_get_shared_vec_info: groups not found')
    g, outer = voi_loops[0]
    inner = [n for n in outer.body if isinstance(n, ast.For)]
    rep.need(len(inner) == 1, '_get_shared_vec_info: variables of interest not found')
    inner = inner[0]
    u, done, I = passes(repo, g, inner, f.cls, calls=())
    voi = ('param', loop_key(inner))
    w = where(g, inner)
    offs = set()
    rep.need(done, '_get_shared_vec_info: not understood')
    for ev, facts, env in done:
        puts = [e for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][2] == voi]
        ok = len(puts) == 1 and puts[0][2][0] == 'param'
        rep.ob('shared/offset', ok, 'the offset of a variable of interest is %s' % [T.show(e[2]) for e in puts], w, 'shared')
        if not ok:
            continue
        off = puts[0][2][1]
        offs.add(off)
        nxt = env.get(off, NONE)
        each = [(k, x) for k, x in facts.items() if k[0] == 'in' and k[1][0] == 'sub' and k[1][2] == T.const('top_promoted_name') and k[2][0] in ('sub', 'get') and k[2][2] == voi]
        none = [k for k, x in nonempties(facts).items() if x is False]
        if len(each) == 1 and each[0][1] is True and T.same(nxt, ('bin', '+', ('param', off), sub(each[0][0][1][1], 'size'))) or nxt == ('param', off) and (none or [x for k, x in each] == [False]):
            continue
        ok = nxt[0] == 'bin' and nxt[1] == '+' and ('param', off) in nxt[2:4]
        rep.ob('shared/next', ok, 'the next offset is %s' % T.show(nxt)[:160], w, 'shared')
        if ok:
            s = nxt[3] if nxt[2] == ('param', off) else nxt[2]
            rep.ob('shared/size', sums_sizes(repo, u, I, s, voi, 'shared/relevant', rep, w), 'the space kept is %s' % T.show(s)[:200], w, 'shared')
    rep.need(len(offs) == 1, '_get_shared_vec_info: offset not found')
    off = offs.pop()
    rep.ob('shared/from the start', starts_in(outer, inner, off), 'the offsets of a group do not start at 0', w, 'shared')
    # the storage is as large as the largest group
    u, done, I = passes(repo, g, outer, f.cls, calls=())
    biggest, undecided = set(), []
    for ev, facts, env in done:
        here = set()
        for k in facts:
            if k[0] in ('lt', 'le') and k[1] != k[2]:
                for lo, hi, less in ((k[1], k[2], facts[k]), (k[2], k[1], not facts[k])):
                    # lo < hi when `less`: a size kept in a name and the size of this group
                    if lo[0] == 'param' and lo[1] in pn(u) and hi[0] != 'const' and (env[lo[1]] == hi or env[lo[1]] == lo) and not (hi[0] == 'param' and hi[1] in pn(u) and env[hi[1]] != hi):
                        here.add(lo[1])
                        if less:
                            rep.ob('shared/largest', env[lo[1]] == hi, 'a group larger than the storage leaves it at %s' % T.show(env[lo[1]]), w, 'shared')
                        else:
                            rep.ob('shared/largest kept', env[lo[1]] == lo, 'a smaller group changes the size of the storage', w, 'shared')
                        break
        for n, v in env.items():
            if v[0] == 'call' and ext_tail(v[1]) == 'max' and ('param', n) in v[2]:
                here.add(n)
        biggest |= here
        if not here and False not in nonempties(facts).values():
            undecided.append(facts)
    rep.ob('shared/every group', not undecided, 'the size of a group is not compared with the storage in the case %s' % ({T.show(k)[-60:]: x for k, x in undecided[0].items()} if undecided else ''), w, 'shared')
    rep.ob('shared/storage', len(biggest) == 1, 'the storage is not as large as the largest group of variables of interest', w, 'shared')
    # the variables counted, and the offset of the vector for no variable of interest
    res, out, I = tr(repo, f, f.cls, calls=(), cells=lambda c: False)
    for ev, facts, v, st in res:
        ok = v[0] == 'tuple' and len(v[1]) == 2
        rep.need(ok, '_get_shared_vec_info: result not understood')
        t = v[1][1]
        if t[0] == 'dict':
            rep.ob('shared/no variable of interest', st.heap.get(('sub', t, NONE)) == T.const(0), 'without a variable of interest the offset is %s' % T.show(st.heap.get(('sub', t, NONE), NONE)), where(f), 'shared')
    counted(repo, rep, f, I)


def creation(repo, rep):
    """every system creates its vectors for every variable of interest, then those of its subsystems"""
    for q in ('Group._setup_vectors', 'Component._setup_vectors'):
        f = repo.func(q)
        rep.fn(q)
        calls = ('zeros', '_create_vecs', '_create_views', '_setup_data_transfer', '_setup_vectors', '_get_shared_vec_info')
        c = Trace(calls=calls, stop=('is_active',), cells=lambda c: c[0] == 'attr' and c[2].startswith('_shared_') or c[0] == 'sub' and mentions_attr(c, '_shared_p_offsets'),
                  keep=lambda t: mentions(t, lambda x: x in (('param', 'parent'), ('param', 'alloc_derivs')) or x[0] == 'attr' and x[2] in ('top_lin_gs', 'groups', 'relevance', '_subsystems')) or t[0] == 'call' and ext_tail(t[1]) == 'is_active')
        c.max_states = 40000
        res, out, I = traces(repo, f, f.cls, client=c)
        rep.need(res, '%s: not understood' % q)
        w = where(f)
        group = q.startswith('Group')
        for ev, facts, v, st in res:
            act = next((x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'is_active'), None)
            made = [e for e in ev if e[0] == 'call' and e[1] in ('_create_vecs', '_create_views')]
            if act is False:
                rep.ob(q + '/inactive', not made, 'a system of another process creates vectors', w, 'creation')
                continue
            rep.saw('creation paths')
            top = decided_none(facts, ('param', 'parent')) if group else False
            lin = next((x for k, x in facts.items() if k[0] == 'attr' and k[2] == 'top_lin_gs'), None)
            vois = {}
            for e in made:
                a = bind(repo, 'Group._create_vecs' if e[1] == '_create_vecs' else 'System._create_views', e[3], e[4])
                rep.ob(q + '/kind', top is None or (e[1] == '_create_vecs') == top, '%s is used %s' % (e[1], 'at the top' if top else 'below the top'), e[-1], 'creation')
                rep.ob(q + '/inputs', a.get('my_params') == (('get', ('param', 'param_owners'), T.path('pathname'), ('tuple', ())) if group else a.get('my_params')) or a.get('my_params', NONE)[0] in ('sub', 'get') or not group and a.get('my_params', NONE)[0] == 'list' and not a['my_params'][1],
                       'the inputs fed here are %s' % T.show(a.get('my_params', NONE)), e[-1], 'creation')
                if e[1] == '_create_views':
                    rep.ob(q + '/parent', a.get('parent') == ('param', 'parent'), 'views of %s' % T.show(a.get('parent', NONE)), e[-1], 'creation')
                vois.setdefault(a.get('voi', NONE), []).append(e)
            rep.ob(q + '/no variable of interest', len(vois.get(NONE, [])) == 1, 'the vectors are created %d times' % len(vois.get(NONE, [])), w, 'creation')
            ne = nonempties(facts)
            G = [k for k in ne if k[0] == 'attr' and k[2] == 'groups']
            per = [k for k in vois if k != NONE]
            both = any(ne[g] and ne.get(('elem', g)) for g in G)
            want = [('elem', ('elem', g)) for g in G] if both and lin else []
            rep.ob(q + '/each variable of interest', per == want and all(len(vois[k]) == 1 for k in per), 'vectors are created for %s' % [T.show(k) for k in per], w, 'creation')
            if group:
                x = [bind(repo, 'Group._setup_data_transfer', e[3], e[4]).get('var_of_interest') for e in ev if e[0] == 'call' and e[1] == '_setup_data_transfer']
                rep.ob(q + '/transfers', x == [NONE] + want, 'transfers are set up for %s' % [T.show(y) for y in x if y], w, 'creation')
                subs = [e for e in ev if e[0] == 'call' and e[1] == '_setup_vectors']
                S = T.path('_subsystems')
                if ne.get(S):
                    ok = len(subs) == 1 and subs[0][2][1] == ('sub', S, ('elem', S))
                    a = bind(repo, 'Group._setup_vectors', subs[0][3], subs[0][4]) if ok else {}
                    ok = ok and a.get('parent') == T.SELF and a.get('param_owners') == ('param', 'param_owners') and a.get('alloc_derivs') == ('param', 'alloc_derivs')
                    tu = a.get('top_unknowns', NONE)
                    ok = ok and (tu in (T.path('unknowns'), NONE) if top else tu == ('param', 'top_unknowns') or top is None)
                    rep.ob(q + '/subsystems', ok, 'subsystems are set up with %s' % {k: T.show(x) for k, x in a.items()}, w, 'creation')
                    rep.ob(q + '/subsystems last', not made or ev.index(subs[0]) > max(ev.index(m) for m in made) if subs else True, 'subsystems are set up before the vectors they view', w, 'creation')
                alloc = decided(facts, ('param', 'alloc_derivs'))
                put = {e[1][2]: e[2] for e in ev if e[0] == 'set' and e[1][0] == 'attr'}
                rep.ob(q + '/apart', len([e for e in ev if e[0] == 'call' and e[1] == 'zeros']) >= (3 if top else 1), 'derivative vectors share their storage', w, 'creation')
                for a, i, m in (('_shared_dp_vec', 0, '_params_dict'),) + ((('_shared_du_vec', 0, '_unknowns_dict'), ('_shared_dr_vec', 0, '_unknowns_dict')) if top else ()):
                    t = put.get(a)
                    ok = t is not None and t[0] == 'call' and ext_tail(t[1]) == 'zeros' and len(t[2]) == 1
                    if ok:
                        n = t[2][0]
                        ok = alloc is False and n == T.const(0) or alloc is not False and n[0] == 'sub' and n[2] == T.const(i) and n[1][0] == 'call' and ext_tail(n[1][1]) == '_get_shared_vec_info' and mentions_attr(n[1], m)
                    rep.ob(q + '/' + a, ok, 'the shared storage is %s' % (t and T.show(t)), w, 'creation')
                for a, m in (('_shared_p_offsets', '_params_dict'),) + ((('_shared_u_offsets', '_unknowns_dict'),) if top else ()):
                    n = put.get(a)
                    ok = n is not None and n[0] == 'sub' and n[2] == T.const(1) and n[1][0] == 'call' and ext_tail(n[1][1]) == '_get_shared_vec_info' and mentions_attr(n[1], m)
                    rep.ob(q + '/' + a, ok, 'the offsets are %s' % (n and T.show(n)), w, 'creation')


def starts_in(outer, inner, name):
    last = None
    for s in outer.body:
        if s is inner:
            break
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                last = isinstance(n.value, ast.Constant) and n.value.value == 0
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                last = False
    return bool(last)


def sums_sizes(repo, f, I, t, voi, key, rep, w):
    """sum of the sizes of the variables relevant for one variable of interest"""
    if t[0] != 'call' or ext_tail(t[1]) != 'sum' or len(t[2]) != 1 or t[2][0][0] != 'comp':
        return False
    c = t[2][0]
    if not (c[2][0] == 'sub' and c[2][2] == T.const('size')):
        return False
    m = c[2][1]
    for cases in picked(repo, f, f.cls, I, c):
        for facts, yes in cases:
            rel = [(k, x) for k, x in facts.items() if k[0] == 'in' and k[1] == sub(m, 'top_promoted_name')]
            ok = len(rel) == 1 and rel[0][0][2][0] in ('sub', 'get') and rel[0][0][2][2] == voi and rel[0][1] == yes
            rep.ob(key, ok, 'space is kept for a variable in the case %s' % {T.show(k): x for k, x in facts.items()}, w, 'shared')
    return bool(I.compenvs.get(c))


def counted(repo, rep, f, I):
    """the variables that need space: numeric, and fed by this system where that is asked"""
    for key, recs in I.compenvs.items():
        if key[2][0] not in ('elem', 'sub') or key[2][2:] == (T.const('size'),):
            continue
        m = key[2]
        for cases in picked(repo, f, f.cls, I, key):
            rep.saw('selections')
            mine = any(k[0] == 'in' and k[2] == ('param', 'my_params') for facts, yes in cases for k in facts)
            for facts, yes in cases:
                own = next((x for k, x in facts.items() if k[0] == 'in' and k[2] == ('param', 'my_params') and k[1] == sub(m, 'pathname')), None)
                pbo = truth(facts, m, 'pass_by_obj')
                want = None if pbo is None and own is not False or mine and own is None and pbo is not True else pbo is False and own is not False
                rep.ob('shared/counted', want == yes, 'a variable is %scounted in the case %s' % ('' if yes else 'not ', {T.show(k): x for k, x in facts.items()}), where(f), 'shared')


# ---------------------------------------------------------------- sizes and entries
def sizes(repo, rep):
    for cls in (repo.cls('SrcVecWrapper'), repo.cls('TgtVecWrapper')):
        f = repo.method(cls, '_get_flattened_sizes')
        rep.fn(f.qualname)
        D = T.path('_dat')
        acc, key = ('sub', D, ('elem', D)), '%s/sizes' % cls.name
        entry = (('elem', D), sub(('attr', acc, 'meta'), 'size'))
        res, out, I = tr(repo, f, cls, calls=('append',), cells=lambda c: False)
        cases, n = [], 0
        for ev, facts, v, st in res:
            ok = v[0] == 'list' and len(v[1]) == 1
            rep.ob(key + '/one process', ok, 'the size table is %s' % T.show(v), where(f), 'sizes')
            if not ok:
                continue
            t = v[1][0]
            if t[0] == 'comp':
                rep.ob(key + '/entry', t[1] == 'list' and t[2] == ('tuple', entry) and len(t[3]) == 1 and mentions(t[3][0], lambda x: x == D), 'an entry is %s' % T.show(t[2]), where(f), 'sizes')
                rep.ob(key + '/filtered', len(I.compenvs.get(t, {})) == 1, 'objects have a size', where(f), 'sizes')
                for cs in picked(repo, f, cls, I, t):
                    cases += cs
            else:
                if nonempties(facts).get(D) is not True:
                    continue
                puts = [e for e in ev if e[0] == 'call' and e[1] == 'append']
                rep.ob(key + '/entry', all(e[3] == (('tuple', entry),) for e in puts) and len(puts) <= 1, 'an entry is %s' % [T.show(e[3][0]) for e in puts], where(f), 'sizes')
                cases.append((facts, bool(puts)))
        rep.need(cases, '%s: not understood' % f.qualname)
        for facts, yes in cases:
            pbo, own = decided(facts, ('attr', acc, 'pbo')), decided(facts, ('attr', acc, 'owned'))
            if cls.name.startswith('Src'):
                own = True if own is None else own
            want = None if pbo is None and own is not False or own is None and pbo is not True else not pbo and own
            rep.ob(key + '/selected', want == yes, 'a variable is %slisted in the case %s' % ('' if yes else 'not ', {T.show(k): x for k, x in facts.items()}), where(f), 'sizes')


def local_idxs(repo, rep):
    f = repo.func('VecWrapper._get_local_idxs')
    rep.fn(f.qualname)
    ps = pn(f)
    nm, tab, gs = [('param', p) for p in ps[:3]]
    acc = ('sub', T.path('_dat'), nm)
    s = ('attr', acc, 'slice')
    lo, hi = sub(s, 0), sub(s, 1)
    res, out, I = tr(repo, f, f.cls, stop=('make_idx_array', 'to_idx_array'), calls=('to_idx_array', 'make_idx_array'), throws=False)
    rep.need(res, '_get_local_idxs: not understood')
    n = 0
    for ev, facts, v, st in res:
        none = decided_none(facts, s)
        has = next((x for k, x in facts.items() if k == ('in', nm, tab)), None)
        if v[0] == 'call' and ext_tail(v[1]) == 'make_idx_array' and v[2] == (T.const(0), T.const(0)):
            rep.ob('entries/none', none is not False, 'a variable with a block has no entries', where(f), 'entries')
            continue
        if v[0] == 'call' and ext_tail(v[1]) == 'make_idx_array' or v[0] == 'call' and ext_tail(v[1]) == 'slice' or v[0] == 'slice':
            rep.ob('entries/all', (v[2] == (lo, hi) if v[0] == 'call' else v[1:3] == (lo, hi)) and has is False and none is False, 'all entries are %s' % T.show(v), where(f), 'entries')
            continue
        n += 1
        rep.ob('entries/selected', has is True, 'a selection is used where none is given', where(f), 'entries')
        given = [x for x in T.subterms(v) if x[0] == 'call' and ext_tail(x[1]) == 'to_idx_array']
        rep.ob('entries/indices', bool(given) and all(x[2] == (('sub', tab, nm),) or x[2] == (('get', tab, nm, NONE),) for x in given), 'the entries are %s' % T.show(v), where(f), 'entries')
        if not given:
            continue
        X = given[0]
        ok = v[0] == 'call' and ext_tail(v[1]) == 'where' and len(v[2]) == 3
        if ok:
            c, a, b = v[2]
            ok = (c in (('lt', X, T.const(0)), ('cmp', '<', X, T.const(0))) and T.same(a, ('bin', '+', X, hi)) and T.same(b, ('bin', '+', X, lo)))
            rep.ob('entries/place', ok, 'entry i is at %s' % T.show(v), where(f), 'entries')
        else:
            rep.ob('entries/offset', T.same(v, ('bin', '+', X, lo)) or mentions(v, lambda x: x == lo) and mentions(v, lambda x: x == X), 'entry i is at %s' % T.show(v), where(f), 'entries')
            rep.ob('entries/negative', mentions(v, lambda x: x == hi or x[0] == 'call' and ext_tail(x[1]) in ('mod', 'remainder') or x[0] == 'bin' and x[1] == '%') or not T.same(v, ('bin', '+', X, lo)), 'negative indices reach into another variable', where(f), 'entries')
    rep.need(n, '_get_local_idxs: selection not found')


def check(repo, rep, tier):
    source(repo, rep)
    target(repo, rep)
    views(repo, rep)
    wiring(repo, rep)
    shared(repo, rep)
    creation(repo, rep)
    sizes(repo, rep)
    local_idxs(repo, rep)
