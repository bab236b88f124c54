"""P01: a recorded case holds the selected variables, as they were when recorded, and reads back the same."""
import ast

from sa import terms as T
from sa.events import Trace, traces
from sa.table import decide, words
from sa.util import *

EXPLANATION = (
    'Flow of recorded data: every recorder is interpreted with each option on and off, and what reaches its store must be '
    'exactly the filtered vectors the options select, under one label per vector, with the status and the iteration coordinate, '
    'once per call; values kept in memory must be copies. The selection itself, the routing of the manager to its recorders, the '
    'naming of iteration coordinates and the order "run the model, then record" in every driver and solver are decided as path '
    'tables, a swallowed failure must be marked in the record, and the labels a reader looks for must be those its recorder writes.')
RULE = 'stored(vector) == option on, value == filtered vector, label(reader) == label(recorder); model run precedes record; failure swallowed => success 0'
ASSUMPTIONS = ['sqlite and HDF5 stores keep a value, not a reference', 'one generic recorder, variable and coordinate entry per loop']

VEC = {'params': 'p', 'unknowns': 'u', 'resids': 'r'}
STATUS = ('timestamp', 'success', 'msg')


def opt(name):
    return ('sub', ('attr', T.SELF, 'options'), ('const', name))


def pnames(f):
    return [a.arg for a in f.node.args.args if a.arg != 'self']


def filtered(t):
    """the (vector, key, coordinate) filter calls below a term"""
    out = []
    for x in T.subterms(t):
        if x[0] == 'call' and ext_tail(x[1]) == '_filter_vector' and len(x[2]) == 3:
            out.append(x[2])
    return out


def which(t, names):
    for v, k, c in filtered(t):
        for i, n in enumerate(('params', 'unknowns', 'resids')):
            if v == ('param', names[i]):
                return n, k, c
    return None


def formatted(t):
    """is t (or does it contain) the text of the iteration coordinate?"""
    return mentions(t, lambda x: x[0] == 'call' and ext_tail(x[1]) == 'format_iteration_coordinate')


def status_of(t, meta):
    for k in STATUS + ('coord',):
        if t == ('sub', meta, ('const', k)):
            return k
    return None


def optvals(facts):
    out = {}
    for k, x in facts.items():
        if k[0] == 'sub' and k[1] == ('attr', T.SELF, 'options') and k[2][0] == 'const':
            out[k[2][1]] = x
    return out


def sink_cells(c):
    return True


def key_of_cell(c):
    return c[2][1] if c[0] == 'sub' and c[2][0] == 'const' and isinstance(c[2][1], str) else None


class Rec(Trace):
    def inline(self, I, fn, func):
        if func.name in ('get_model_viewer_data', 'debug'):
            return False
        return Trace.inline(self, I, fn, func)


def rec_traces(repo, cls, meth, extra=()):
    f = repo.method(cls, meth)
    c = Rec(calls=('_filter_vector', 'append', 'extend', 'writerow', 'write', 'create_dataset', 'create_group', 'require_group',
                   'format_iteration_coordinate', 'setdefault') + tuple(extra))
    c.havoc_containers = True
    c.unroll = 4
    res, out, I = traces(repo, f, cls, client=c)
    return f, res, out, I


def labels(repo, rep, cls):
    """label -> what is stored under it, along every path of record_iteration"""
    f, res, out, I = rec_traces(repo, cls, 'record_iteration')
    names = pnames(f)
    rep.fn(f.qualname)
    meta = ('param', names[3])
    loc = where(f)
    key = cls.name + '.record_iteration'
    table = {}
    csv = cls.name == 'CsvRecorder'
    dump = cls.name == 'DumpRecorder'
    n = 0
    for ev, facts, v, st in res:
        opts = optvals(facts)
        # a closed recorder, or a process that may not record, writes nothing
        idle = not ev and any(k[0] == 'attr' and k[1] == T.SELF and not k[2].startswith('_') for k in facts)
        if idle:
            continue
        n += 1
        got = {}
        seen_status = set()
        stored = 0
        coords = False
        for e in ev:
            if e[0] == 'set':
                lab = key_of_cell(e[1])
                w = which(e[2], names)
                s = status_of(e[2], meta)
                if w and lab:
                    got[w[0]] = lab
                    check_filter(rep, key, w, meta, loc)
                if s and lab:
                    seen_status.add(s)
                    rep.ob(key + '/status label', lab == s, '%s is stored as %r' % (s, lab), e[3], 'labels')
                if formatted(e[2]):
                    coords = True
                if formatted(e[1]):
                    coords = True
                    if e[1][0] == 'sub' and not mentions_attr(e[1], 'attrs'):
                        stored += 1
            elif e[0] == 'call':
                nm, fn, args = e[1], e[2], e[3]
                if nm == 'append' and mentions_attr(fn, 'iters'):
                    stored += 1
                if nm in ('create_group', 'require_group') and args and formatted(args[0]):
                    coords = True
                    if nm == 'create_group' or mentions_attr(fn, 'out'):
                        stored += 1
                if nm == 'append' and args and args[0][0] == 'tuple':
                    # a (destination, data) pairing
                    labs = [x[2][0][1] for x in T.subterms(args[0]) if x[0] == 'call' and ext_tail(x[1]) in ('create_group', 'require_group') and x[2] and x[2][0][0] == 'const']
                    w = which(args[0], names)
                    if w and labs:
                        got[w[0]] = labs[-1]
                        check_filter(rep, key, w, meta, loc)
        if csv or dump:
            continue
        for vname in VEC:
            on = opts.get('record_' + vname)
            if on is None:
                rep.ob('%s/%s/unconditional' % (key, vname), False, '%s are recorded whatever the option says' % vname if vname in got else '%s are never recorded' % vname, loc, 'options')
                continue
            rep.ob('%s/%s' % (key, vname), (vname in got) == on, '%s are %s although the option is %s' % (vname, 'recorded' if vname in got else 'not recorded', 'on' if on else 'off'), loc, 'options')
            if vname in got:
                table.setdefault(vname, set()).add(got[vname])
        rep.ob(key + '/status', seen_status >= set(STATUS), 'the record lacks %s' % ', '.join(sorted(set(STATUS) - seen_status)), loc, 'status')
        rep.ob(key + '/coordinate', coords, 'the record does not carry the iteration coordinate', loc, 'status')
        rep.ob(key + '/once', stored == 1, 'one call stores %d records' % stored, loc, 'once')
    rep.need(n, key + ': no recording path found')
    rep.saw('recording paths', n)
    for vname, labs in table.items():
        rep.ob('%s/%s/label' % (key, vname), len(labs) == 1, 'different labels for the same vector: %s' % sorted(labs), loc, 'labels')
    alll = [l for ls in table.values() for l in ls]
    rep.ob(key + '/labels', len(alll) == len(set(alll)), 'two vectors share a label', loc, 'labels')
    for st, e in out.exc:
        if e[0] == 'raised' and T.contains(e, lambda x: x == ('const', 'not rank 0')):
            continue
    return {k: sorted(v)[0] for k, v in table.items()}, (f, res, names, meta)


def check_filter(rep, key, w, meta, loc):
    vname, k, c = w
    rep.ob('%s/%s/selection' % (key, vname), k == ('const', VEC[vname]), '%s are selected with the list of %s' % (vname, T.show(k)), loc, 'selection')
    rep.ob('%s/%s/system' % (key, vname), c == ('sub', meta, ('const', 'coord')), '%s are selected by another coordinate' % vname, loc, 'selection')


# ---------------------------------------------------------------- copies
COPIES = ('deepcopy', 'copy', 'array', 'tolist', 'dumps')


def copied(t):
    """is the value of a recorded entry a copy (not a reference into the vector)?"""
    if t[0] == 'call' and ext_tail(t[1]) in COPIES:
        return True
    if t[0] == 'const':
        return True
    if t[0] == 'phi':
        return all(copied(x) for x in t[1])
    return False


def snapshots(repo, rep):
    cls = repo.cls('InMemoryRecorder')
    for meth in ('record_iteration', 'record_derivatives'):
        f, res, out, I = rec_traces(repo, cls, meth)
        rep.fn(f.qualname)
        names = pnames(f)
        n = 0
        for ev, facts, v, st in res:
            for e in ev:
                if e[0] != 'set' or key_of_cell(e[1]) is None:
                    continue
                val = e[2]
                if meth == 'record_iteration':
                    w = which(val, names)
                    if not w:
                        continue
                    n += 1
                    ok = copied(val)
                    if val[0] == 'comp':
                        el = val[2]
                        el = el[1][1] if el[0] == 'tuple' and len(el[1]) == 2 else el
                        ok = copied(el) or ok
                    elif val[0] == 'call' and ext_tail(val[1]) == 'deepcopy':
                        ok = True
                    elif val[0] == 'dict':
                        sets = [x[2] for x in ev if x[0] == 'set' and x[1][0] == 'sub' and x[1][1] == val]
                        ok = bool(sets) and all(copied(x) for x in sets)
                    rep.ob('InMemoryRecorder.%s/%s/snapshot' % (meth, w[0]), ok, 'the values of %s are kept as references into the live vector' % w[0], e[3], 'snapshot')
                elif mentions(val, lambda x: x == ('param', names[0])):
                    n += 1
                    rep.ob('InMemoryRecorder.%s/snapshot' % meth, copied(val), 'the derivatives are kept by reference', e[3], 'snapshot')
        rep.need(n, 'InMemoryRecorder.%s: nothing stored' % meth)


# ---------------------------------------------------------------- derivatives of one iteration
def derivs(repo, rep, cls):
    f, res, out, I = rec_traces(repo, cls, 'record_derivatives')
    rep.fn(f.qualname)
    names = pnames(f)
    J, meta = ('param', names[0]), ('param', names[1])
    key = cls.name + '.record_derivatives'
    n = 0
    lab = None
    for ev, facts, v, st in res:
        n += 1
        seen = {status_of(e[2], meta) for e in ev if e[0] == 'set'} - {None}
        rep.ob(key + '/status', seen >= set(STATUS), 'the record lacks %s' % ', '.join(sorted(set(STATUS) - seen)), where(f), 'status')
        co = any(formatted(x) for e in ev for x in e[1:4] if isinstance(x, tuple))
        rep.ob(key + '/coordinate', co, 'the record does not carry the iteration coordinate', where(f), 'status')
        empty = facts.get(('nonempty', J)) is False
        kept = False
        for e in ev:
            if e[0] == 'set' and mentions(e[2], lambda x: x == J) and key_of_cell(e[1]):
                kept, lab = True, key_of_cell(e[1])
            if e[0] == 'call' and e[1] == 'create_dataset' and any(mentions(x, lambda y: y == J) for x in e[3] + tuple(v for k, v in e[4])):
                kept = True
                if e[3][0][0] == 'const':
                    lab = e[3][0][1]
        if not kept and not empty and not any(x is False and k[0] == 'nonempty' for k, x in facts.items()):
            rep.ob(key + '/stored', False, 'derivatives are not stored on some path', where(f), 'stored')
    rep.need(n and lab, key + ': the store of the derivatives was not found')
    rep.ob(key + '/found', True)
    return lab


def csv_rows(repo, rep):
    cls = repo.cls('CsvRecorder')
    f, res, out, I = rec_traces(repo, cls, 'record_iteration')
    names = pnames(f)
    meta = ('param', names[3])
    n = 0
    for ev, facts, v, st in res:
        if any(k[0] == 'is' and T.NONE in k[1:] and x and filtered(k) for k, x in facts.items()):
            continue
        opts = optvals(facts)
        rows = []
        parts = {}
        for e in ev:
            if e[0] == 'call' and e[1] in ('extend', 'append') and e[2][0] == 'attr' and e[2][1][0] == 'list' and e[3]:
                base = e[2][1]
                w = which(e[3][0], names)
                parts.setdefault(base, []).append(w[0] if w else '?')
                if w:
                    check_filter(rep, 'CsvRecorder.record_iteration', w, meta, where(f))
            elif e[0] == 'call' and e[1] == 'writerow':
                rows.append((e[3][0], e[5]))
        if not rows:
            rep.ob('CsvRecorder/row', False, 'an iteration is recorded without a row', where(f), 'once')
            continue
        n += 1
        header = rows[0] if len(rows) == 2 else None
        want = [x for x in ('params', 'unknowns', 'resids') if opts.get('record_' + x)]
        for what, row in (('header', header), ('row', rows[-1])):
            if row is None:
                continue
            got = parts.get(row[0], [])
            vecs = [x for x in got if x != '?']
            rep.ob('CsvRecorder/%s/columns' % what, vecs == want, 'the %s holds %s where %s are to be recorded' % (what, vecs, want), row[1], 'columns')
            der = opts.get('record_derivs')
            rep.ob('CsvRecorder/%s/derivatives' % what, got[len(vecs):] == (['?'] if der else []), 'the %s and the derivatives option disagree' % what, row[1], 'columns')
        rep.ob('CsvRecorder/status', rows[-1][0][0] == 'list' and rows[-1][0][1][:1] == (('sub', meta, ('const', 'success')),), 'the first column is not the success flag', rows[-1][1], 'status')
        rep.ob('CsvRecorder/once', len(rows) <= 2 and (header is None) == any(k[0] == 'is' and T.contains(k, lambda x: x == ('attr', T.SELF, '_wrote_header')) and not x or k == ('attr', T.SELF, '_wrote_header') and x for k, x in facts.items()), 'rows per call', where(f), 'once')
    rep.need(n, 'CsvRecorder: no row found')


def dump_text(repo, rep):
    cls = repo.cls('DumpRecorder')
    for meth in ('record_iteration', 'record_derivatives'):
        f, res, out, I = rec_traces(repo, cls, meth)
        rep.fn(f.qualname)
        names = pnames(f)
        meta = ('param', names[-1])
        n = 0
        for ev, facts, v, st in res:
            opts = optvals(facts)
            w = [e for e in ev if e[0] == 'call' and e[1] == 'write']
            if not w:
                continue
            n += 1
            text = [e[3][0] for e in w if e[3]]
            rep.ob('DumpRecorder.%s/coordinate' % meth, any(formatted(t) for t in text), 'the coordinate is not written', where(f), 'status')
            rep.ob('DumpRecorder.%s/timestamp' % meth, any(mentions(t, lambda x: x == ('sub', meta, ('const', 'timestamp'))) for t in text), 'the time is not written', where(f), 'status')
            ok = facts.get(('sub', meta, ('const', 'success')))
            rep.need(ok is not None or rep.bad, 'DumpRecorder.%s does not look at the success flag' % meth)
            msg = any(mentions(t, lambda x: x == ('sub', meta, ('const', 'msg'))) for t in text)
            rep.ob('DumpRecorder.%s/message' % meth, msg == (ok is False), 'the error message is %s' % ('missing' if not msg else 'written for a success'), where(f), 'status')
            said = [t for t in text if mentions(t, lambda x: x in (('const', 'yes'), ('const', 'no')))]
            lab = [t for t in said if mentions(t, lambda x: x[0] == 'const' and isinstance(x[1], str) and 'succeeded' in x[1])]
            rep.ob('DumpRecorder.%s/success' % meth, len(lab) == 1 and mentions(lab[0], lambda x: x == ('const', 'yes' if ok else 'no')), 'the success line of a %s run is wrong' % ('successful' if ok else 'failed'), where(f), 'status')
            if meth == 'record_iteration':
                calls = [e for e in ev if e[0] == 'call' and e[1] == '_filter_vector']
                got = {}
                for e in calls:
                    x = which(('call', e[2], e[3], (), None), names)
                    if x:
                        got[x[0]] = True
                        check_filter(rep, 'DumpRecorder.record_iteration', x, meta, where(f))
                for vname in VEC:
                    on = opts.get('record_' + vname)
                    rep.ob('DumpRecorder/%s' % vname, on is not None and (vname in got) == on, '%s are %s although the option says otherwise' % (vname, 'recorded' if vname in got else 'not recorded'), where(f), 'options')
                for vname in got:
                    full = [k for k, x in facts.items() if k[0] == 'nonempty' and x and which(k[1], names) and which(k[1], names)[0] == vname]
                    if full:
                        rep.ob('DumpRecorder/%s/values' % vname, any(which(t, names) and which(t, names)[0] == vname and mentions(t, lambda y: y[0] in ('elem', 'sub')) for t in text), 'the values of %s are not written' % vname, where(f), 'stored')
        rep.need(n, 'DumpRecorder.%s writes nothing' % meth)


# ---------------------------------------------------------------- selection
def selection(repo, rep):
    base = repo.cls('BaseRecorder')
    f = repo.method(base, '_check_path')
    rep.fn(f.qualname)
    a = pnames(f)
    P, INC, EXC = [('param', x) for x in a[:3]]
    res, out, I = traces(repo, f, base, client=Trace())

    def pattern(t, L):
        return t[0] == 'call' and ext_tail(t[1]) == 'fnmatchcase' and len(t[2]) == 2 and t[2][0] == P and t[2][1] == ('elem', L)

    def anyof(t, L):
        return t[0] == 'call' and t[1] == ('ext', 'any') and mentions(t, lambda x: pattern(x, L))

    def classify(t, x):
        while t[0] == 'un' and t[1] == 'not':
            t, x = t[2], not x
        for L, nm in ((INC, 'included'), (EXC, 'excluded')):
            if pattern(t, L) or anyof(t, L):
                return [(nm, x)]
            if t == ('nonempty', L) and not x:
                return [(nm, False)]
        return None

    def value(p):
        v = p[2]
        if v[0] == 'const':
            return bool(v[1])
        return v
    rep.need(res, '_check_path was not understood')

    # a returned boolean expression is split into its cases
    def ev(v, d):
        if v[0] == 'const':
            return bool(v[1])
        for L, nm in ((INC, 'included'), (EXC, 'excluded')):
            if pattern(v, L) or anyof(v, L):
                return d[nm]
        if v[0] == 'un' and v[1] == 'not':
            x = ev(v[2], d)
            return None if x is None else not x
        if v[0] in ('and', 'or'):
            xs = [ev(x, d) for x in v[1:]] if not isinstance(v[1], tuple) or isinstance(v[1][0], str) else [ev(x, d) for x in v[1]]
            return None if None in xs else all(xs) if v[0] == 'and' else any(xs)
        return None
    import itertools
    for ev_, facts, v, st in res:
        known = {}
        for t, x in facts.items():
            for at, b in classify(t, x) or ():
                known[at] = b
        free = [z for z in ('included', 'excluded') if z not in known]
        for vals in itertools.product((False, True), repeat=len(free)):
            d = dict(known)
            d.update(zip(free, vals))
            got = ev(v, d)
            want = d['included'] and not d['excluded']
            rep.ob('_check_path/table', got is None or got == want, 'a variable that is %s is %s' % (words(d), 'recorded' if got else 'left out'), where(f), 'selection')
            rep.need(got is not None, '_check_path: result not understood: %s' % T.show(v))

    f = repo.method(base, '_filter_vector')
    rep.fn(f.qualname)
    a = pnames(f)
    V, K, C = [('param', x) for x in a[:3]]
    res, out, I = traces(repo, f, base, client=Trace())
    n = 0
    for ev_, facts, v, st in res:
        if facts.get(V) is False or facts.get(('nonempty', V)) is False:
            continue
        if v[0] == 'call' and ext_tail(v[1]) in ('dict', 'OrderedDict') and len(v[2]) == 1 and v[2][0][0] == 'comp':
            v = v[2][0]
        comps = [v] if v[0] == 'comp' else []
        ok = False
        if comps and v[2][0] == 'tuple' and len(v[2][1]) == 2:
            k, val = v[2][1]
            src = k[1] if k[0] == 'elem' else None
            ok = val == ('sub', V, k) and src is not None and src[0] == 'sub' and src[2] == K and src[1][0] == 'sub' and src[1][1] == ('attr', T.SELF, '_filtered')
            if ok:
                n += 1
                rep.ob('_filter_vector/system', names_system(src[1][2], C), 'the list of variables is not that of the system the coordinate ends in: %s' % T.show(src[1][2]), where(f), 'selection')
                rep.ob('_filter_vector/all', not v[4], 'some selected variables are dropped', where(f), 'selection')
        elif v[0] == 'dict':
            sets = [x for x in ev_ if x[0] == 'set' and x[1][0] == 'sub' and x[1][1] == v]
            full = [k for k, x in facts.items() if k[0] == 'nonempty' and x]
            if full:
                ok = len(sets) == 1 and sets[0][2] == ('sub', V, sets[0][1][2])
                if ok:
                    src = sets[0][1][2][1] if sets[0][1][2][0] == 'elem' else None
                    n += 1
                    rep.ob('_filter_vector/system', src is not None and src[0] == 'sub' and src[2] == K and src[1][0] == 'sub' and names_system(src[1][2], C), 'wrong list of variables', where(f), 'selection')
            else:
                ok = True
        rep.ob('_filter_vector/values', ok, 'a recorded name is not paired with its own value: %s' % T.show(v), where(f), 'selection')
    rep.need(n or rep.bad, '_filter_vector was not understood')

    f = repo.method(base, 'startup')
    rep.fn(f.qualname)
    g = ('param', pnames(f)[0])
    c = Trace(calls=('_check_path', 'append'), cells=lambda c: c[0] == 'sub' and mentions_attr(c, '_filtered') or c[0] == 'sub' and c[1][0] == 'dict')
    res, out, I = traces(repo, f, base, client=c)
    n = 0
    for ev_, facts, v, st in res:
        opts = optvals(facts)
        st_ = [e for e in ev_ if e[0] == 'set' and mentions_attr(e[1], '_filtered')]
        rep.ob('startup/stored', len(st_) == 1 and st_[0][1][2] == ('attr', g, 'pathname'), 'the selection is not stored under the name of the system', where(f), 'selection')
        if len(st_) != 1:
            continue
        d = st_[0][2]
        for vname, k in VEC.items():
            t = st.heap.get(('sub', d, ('const', k)))
            if t is None:
                rep.ob('startup/%s' % vname, False, 'no selection of %s' % vname, where(f), 'selection')
                continue
            n += 1
            on = opts.get('record_' + vname)
            vec = ('attr', g, vname)
            vecs = [vec, ('attr', g, 'unknowns')] if vname == 'resids' else [vec]
            els = [e for e in T.subterms(t) if e[0] == 'elem' and e[1] in vecs]
            picked = bool(els)
            adds = [e for e in ev_ if e[0] == 'call' and e[1] == 'append' and e[3] and e[3][0][0] == 'elem' and e[3][0][1] in vecs]
            looped = [e for e in ev_ if e[0] == 'call' and e[1] == '_check_path' and e[3] and e[3][0][0] == 'elem' and e[3][0][1] in vecs]
            if not picked and t[0] != 'comp' and (any(e[2][0] == 'attr' and e[2][1] == t for e in adds) or looped and not adds and t[0] == 'list') and on:
                for e in looped:
                    truth = facts.get(('call', e[2], e[3], (), None))
                    rep.ob('startup/%s/filter' % vname, truth is None or truth == bool(adds), 'names are kept against the include and exclude patterns', e[5], 'selection')
                    rep.ob('startup/%s/patterns' % vname, e[3][1:] == (opt('includes'), opt('excludes')), 'names are filtered by other patterns', e[5], 'selection')
                rep.ob('startup/%s/filter' % vname, bool(looped), 'names are not filtered by the include and exclude patterns', where(f), 'selection')
                continue
            if on and not picked and any(k == ('nonempty', w) and x is False for k, x in facts.items() for w in vecs):
                continue
            rep.ob('startup/%s' % vname, on is None or picked == on, '%s are %s although the option is %s' % (vname, 'selected' if picked else 'not selected', 'on' if on else 'off'), where(f), 'options')
            if on is None:
                rep.ob('startup/%s/option' % vname, False, 'the option for %s is not consulted' % vname, where(f), 'options')
            if t[0] == 'comp' and picked:
                conds = I.allconds.get(t, {})
                good = bool(conds)
                rep.ob('startup/%s/filter' % vname, good and all(len(x) == 1 for x in conds.values()), 'names are not filtered by the include and exclude patterns', where(f), 'selection')
                for cs in conds.values():
                    for x in cs:
                        src = x
                        isck = isinstance(src, ast.Call) and ext_nm(src) in check_names(f)
                        args = [ast.unparse(y) for y in src.args] if isck else []
                        rep.ob('startup/%s/patterns' % vname, isck and len(args) == 3 and patterns(f, args), 'names are filtered by %s' % ast.unparse(x), where(f, x), 'selection')
    rep.need(n, 'startup: no selection found')


def ext_nm(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)


def check_names(f):
    out = {'_check_path'}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == '_check_path':
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return out


def patterns(f, args):
    """second argument reads the includes, third the excludes"""
    def reads(txt):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == txt for t in n.targets):
                return ast.unparse(n.value)
        return txt
    return 'includes' in reads(args[1]) and 'excludes' in reads(args[2])


def slice_idx(s):
    if s[0] == 'slice' and all(x[0] == 'const' for x in s[1:4]):
        return slice(*[x[1] for x in s[1:4]])
    return None


def names_system(t, coord):
    """'.'.join over the names below the root of a coordinate [rank, driver, n, root, n, a, n, b, n]"""
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join' and t[1][1] == ('const', '.') and len(t[2]) == 1:
        x = t[2][0]
        if x[0] == 'sub' and x[1] == coord:
            s = slice_idx(x[2])
            return s is not None and all(list(range(L))[s] == list(range(5, L, 2)) for L in range(3, 31, 2))
    return False


# ---------------------------------------------------------------- coordinates
def coordinates(repo, rep):
    f = repo.func('record_util.create_local_meta')
    rep.fn(f.qualname)
    a = pnames(f)
    PAR, NAME = ('param', a[0]), ('param', a[1])
    res, out, I = traces(repo, f, None, client=Trace())
    n = 0
    for ev, facts, v, st in res:
        rep.need(v[0] == 'dict', 'create_local_meta does not return a dictionary')
        g = {k[2][1]: x for k, x in st.heap.items() if k[0] == 'sub' and k[1] == v and k[2][0] == 'const'}
        parent = facts.get(('is', PAR, T.NONE)) is not True and facts.get(PAR) is not False
        root = [x for k, x in facts.items() if k[0] == 'eq' and NAME in k[1:] and ('const', '') in k[1:]]
        lens = [x for k, x in facts.items() if k[0] == 'eq' and ('const', 3) in k[1:]]
        isroot = root == [True] and (not lens or lens == [True])
        c = g.get('coord')
        ok = c is not None and c[0] == 'bin' and c[1] == '+'
        if ok:
            base, tail = c[2], c[3]
            nm = ('const', 'root') if isroot else NAME
            ok = tail[0] == 'list' and len(tail[1]) == 2 and tail[1][0] == nm
            if parent:
                ok = ok and base == ('sub', PAR, ('const', 'coord'))
            else:
                ok = ok and base[0] == 'list' and len(base[1]) == 1
        n += 1
        rep.ob('create_local_meta/coord', ok, 'the coordinate of a level is not that of its parent followed by its own name: %s' % (c and T.show(c)), where(f), 'coordinate')
        rep.ob('create_local_meta/status', g.get('success') in (('const', 1), T.TRUE) and g.get('msg') == ('const', ''), 'a new record does not start as a success', where(f), 'status')
    rep.need(n, 'create_local_meta was not understood')

    f = repo.func('record_util.update_local_meta')
    rep.fn(f.qualname)
    a = pnames(f)
    res, out, I = traces(repo, f, None, client=Trace())
    for ev, facts, v, st in res:
        s = [e for e in ev if e[0] == 'set']
        it = ('param', a[1])
        ok = len(s) == 1 and s[0][1] == ('sub', ('sub', ('param', a[0]), ('const', 'coord')), ('const', -1)) and s[0][2] in (it, ('tuple', (it,)))
        rep.ob('update_local_meta', ok, 'the iteration number is not stored as the last entry of the coordinate', where(f), 'coordinate')
        wrap = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance']
        rep.ob('update_local_meta/tuple', not (wrap and s and (s[0][2] == it) == wrap[0]), 'a plain number is not stored as a tuple', where(f), 'coordinate')

    f = repo.func('record_util.format_iteration_coordinate')
    rep.fn(f.qualname)
    C = ('param', pnames(f)[0])
    res, out, I = traces(repo, f, None, client=Trace(calls=('append', 'extend')))

    def part(t, want):
        for x in T.subterms(t):
            if x[0] == 'sub' and x[1] == C:
                s = slice_idx(x[2])
                if s is not None and list(range(9))[s] == want:
                    return True
        return False
    n = 0
    for ev, facts, v, st in res:
        if any(k[0] == 'nonempty' and not x for k, x in facts.items()):
            continue
        n += 1
        parts = [v] + [e[3][0] for e in ev if e[0] == 'call' and e[3]]
        rep.ob('format_iteration_coordinate/rank', mentions(v, lambda x: x == ('sub', C, ('const', 0))), 'the rank is missing from the text', where(f), 'coordinate')
        rep.ob('format_iteration_coordinate/names', any(part(t, [1, 3, 5, 7]) for t in parts), 'names are missing from the text', where(f), 'coordinate')
        rep.ob('format_iteration_coordinate/numbers', any(part(t, [2, 4, 6, 8]) for t in parts), 'iteration numbers are missing from the text', where(f), 'coordinate')
    rep.need(n, 'format_iteration_coordinate was not understood')

    # the name a level adds to the coordinate
    k = 0
    for f in repo.all_functions():
        if not ('/solvers/' in f.module.path or '/drivers/' in f.module.path or '/core/' in f.module.path) or '/test/' in f.module.path:
            continue
        for nd in ast.walk(f.node):
            if isinstance(nd, ast.Call) and ext_nm(nd) == 'create_local_meta' and len(nd.args) + len(nd.keywords) == 2:
                if enclosing(nd) is not f.node:
                    continue
                k += 1
                kw = {x.arg: x.value for x in nd.keywords}
                first = nd.args[0] if nd.args else kw.get('metadata')
                second = nd.args[1] if len(nd.args) > 1 else kw.get('name')
                none = isinstance(first, ast.Constant) and first.value is None
                txt = ast.unparse(second)
                key = '%s/create_local_meta' % f.qualname
                if '/solvers/' in f.module.path:
                    rep.ob(key + '/parent', not none, 'the level does not continue the coordinate of its parent', where(f, nd), 'coordinate')
                    rep.ob(key + '/name', not path_name(f, second), 'the level adds the full path of its system to a coordinate that already holds the path of the parent', where(f, nd), 'coordinate')
                else:
                    rep.ob(key + '/parent', none, 'a driver is the outermost level', where(f, nd), 'coordinate')
    rep.need(k >= 6, 'calls of create_local_meta not found')
    rep.saw('levels named', k)

    # a model run below the root needs the coordinate of its parent
    for f in repo.all_functions():
        if f.name in ('fd_jacobian', 'complex_step_jacobian') and f.cls is not None and f.cls.name == 'System':
            alias = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and mentions_ast(n.value, '_sys_solve_nonlinear') for t in n.targets if isinstance(t, ast.Name)}
            for nd in ast.walk(f.node):
                if isinstance(nd, ast.Call) and (isinstance(nd.func, ast.Name) and nd.func.id in alias or isinstance(nd.func, ast.Attribute) and nd.func.attr == '_sys_solve_nonlinear'):
                    rep.ob('System.%s/model run/metadata' % f.name, len(nd.args) > 3 or any(x.arg == 'metadata' for x in nd.keywords), 'the model is run without the coordinate of its parent', where(f, nd), 'coordinate')


def mentions_ast(n, attr):
    return any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(n))


def enclosing(n):
    p = getattr(n, '_parent', None)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
        p = getattr(p, '_parent', None)
    return p


def path_name(f, e):
    """is the name expression a full pathname (directly or through a local)?"""
    if isinstance(e, ast.Attribute):
        return e.attr == 'pathname'
    if isinstance(e, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                return path_name(f, n.value)
    return False


# ---------------------------------------------------------------- manager
def manager(repo, rep):
    cls = repo.cls('RecordingManager')
    REC = ('elem', ('attr', T.SELF, '_recorders'))

    def serial(t):
        return t == ('ext', 'MPI')
    # record_iteration without MPI and with it
    f = repo.method(cls, 'record_iteration')
    rep.fn(f.qualname)
    a = pnames(f)
    root, meta = ('param', a[0]), ('param', a[1])

    def mpi(t):
        return T.show(t) == 'MPI'

    def assume(t):
        if mpi(t):
            return False
        if t[0] == 'is' and T.NONE in t[1:] and any(mpi(x) for x in t[1:]):
            return True
        return None
    c = Trace(calls=('record_iteration',), inplace=None, assume=assume, cells=lambda c: c == ('sub', meta, ('const', 'timestamp')))
    c.unroll = 2
    res, out, I = traces(repo, f, cls, client=c)
    n = 0
    for ev, facts, v, st in res:
        if any(T.show(k) == 'MPI' and x for k, x in facts.items()):
            continue
        calls = [e for e in ev if e[0] == 'call']
        empty = facts.get(('nonempty', ('attr', T.SELF, '_recorders'))) is False or facts.get(('attr', T.SELF, '_recorders')) is False
        if empty:
            rep.ob('RecordingManager.record_iteration/none', not calls, 'no recorder, yet recorded', where(f), 'routing')
            continue
        contradictory = facts.get(('is', ('attr', root, 'params'), T.NONE))
        if contradictory:
            continue
        n += 1
        rep.ob('RecordingManager.record_iteration/once', len(calls) == 1, 'one iteration reaches a recorder %d times' % len(calls), where(f), 'routing')
        for e in calls:
            want = tuple(('attr', root, x) for x in ('params', 'unknowns', 'resids')) + (meta,)
            rep.ob('RecordingManager.record_iteration/data', e[3] == want and e[2][1] == REC, 'a recorder is given (%s)' % ', '.join(T.show(x) for x in e[3]), e[5], 'routing')
        ts = [e for e in ev if e[0] == 'set']
        none = facts.get(('is', meta, T.NONE))
        rep.ob('RecordingManager.record_iteration/time', none is True or len(ts) == 1 and (not calls or ev.index(ts[0]) < ev.index(calls[0])), 'the record is not time stamped', where(f), 'routing')
    rep.need(n, 'RecordingManager.record_iteration was not understood')

    for meth, opt_, argn in (('record_derivatives', 'record_derivs', 2), ('record_metadata', 'record_metadata', 1)):
        f = repo.method(cls, meth)
        rep.fn(f.qualname)
        a = pnames(f)
        res, out, I = traces(repo, f, cls, client=Trace(calls=(meth,), cells=lambda c: True))
        n = 0
        for ev, facts, v, st in res:
            if facts.get(('nonempty', ('attr', T.SELF, '_recorders'))) is False:
                continue
            calls = [e for e in ev if e[0] == 'call']
            on = facts.get(('sub', ('attr', REC, 'options'), ('const', opt_)))
            here = facts.get(('attr', REC, '_parallel')) is True or any(k[0] == 'eq' and ('attr', T.SELF, 'rank') in k[1:] and x for k, x in facts.items())
            off_rank = any(k[0] == 'eq' and ('attr', T.SELF, 'rank') in k[1:] and not x for k, x in facts.items())
            n += 1
            if on is None and not off_rank:
                rep.ob('RecordingManager.%s/option' % meth, False, 'the option %s is not consulted' % opt_, where(f), 'options')
            want = on is not False and not off_rank
            rep.ob('RecordingManager.%s/routing' % meth, len(calls) == int(want), '%s recorded %d times when the option is %s' % (meth.split('_')[1], len(calls), 'on' if on else 'off'), where(f), 'options')
            for e in calls:
                rep.ob('RecordingManager.%s/data' % meth, e[3] == tuple(('param', x) for x in a[:argn]) and e[2][1] == REC, 'wrong data given to the recorder', e[5], 'routing')
            if meth == 'record_derivatives':
                rep.ob('RecordingManager.%s/time' % meth, any(e[0] == 'set' and e[1] == ('sub', ('param', a[1]), ('const', 'timestamp')) for e in ev), 'derivatives are not time stamped', where(f), 'routing')
        rep.need(n, 'RecordingManager.%s was not understood' % meth)

    f = repo.method(cls, 'record_completed_case')
    rep.fn(f.qualname)
    case = ('param', pnames(f)[1])
    res, out, I = traces(repo, f, cls, client=Trace(calls=('record_iteration',)))
    n = 0
    for ev, facts, v, st in res:
        calls = [e for e in ev if e[0] == 'call']
        if facts.get(('nonempty', ('attr', T.SELF, '_recorders'))) is not True:
            continue
        n += 1
        rep.ob('RecordingManager.record_completed_case/once', len(calls) == 1, 'a case reaches a recorder %d times' % len(calls), where(f), 'routing')
        for e in calls:
            rep.ob('RecordingManager.record_completed_case/data', e[3] == tuple(('sub', case, ('const', k)) for k in ('p', 'u', 'r', 'meta')), 'wrong data given to the recorder', e[5], 'routing')
        rep.ob('RecordingManager.record_completed_case/time', any(e[0] == 'set' and e[1] == ('sub', ('sub', case, ('const', 'meta')), ('const', 'timestamp')) for e in ev), 'the case is not time stamped', where(f), 'routing')
    rep.need(n, 'RecordingManager.record_completed_case was not understood')

    f = repo.method(cls, 'startup')
    rep.fn(f.qualname)
    root = ('param', pnames(f)[0])
    res, out, I = traces(repo, f, cls, client=Trace(calls=('startup', 'update'), assume=assume, cells=lambda c: False))
    n = 0
    for ev, facts, v, st in res:
        if facts.get(('nonempty', ('attr', T.SELF, '_recorders'))) is not True or any(T.show(k) == 'MPI' and x for k, x in facts.items()):
            continue
        n += 1
        calls = [e for e in ev if e[0] == 'call' and e[1] == 'startup']
        rep.ob('RecordingManager.startup/recorders', len(calls) == 1 and calls[0][3] == (root,) and calls[0][2][1] == REC, 'a recorder is not prepared for the run', where(f), 'routing')
        for nm, k in (('pnames', 'p'), ('unames', 'u'), ('rnames', 'r')):
            up = [e for e in ev if e[0] == 'call' and e[1] == 'update' and mentions(e[2], lambda x: x == ('const', nm))]
            rep.ob('RecordingManager.startup/' + nm, len(up) == 1 and mentions(up[0][3][0], lambda x: x == ('const', k)) and mentions_attr(up[0][3][0], '_filtered'), 'the variables to gather are not those the recorder selected', where(f), 'routing')
    rep.need(n, 'RecordingManager.startup was not understood')

    f = repo.method(cls, 'append')
    res, out, I = traces(repo, f, cls, client=Trace(calls=('append', 'insert')))
    for ev, facts, v, st in res:
        ok = any(e[0] == 'call' and e[2][1] == ('attr', T.SELF, '_recorders') and ('param', pnames(f)[0]) in e[3] for e in ev)
        rep.ob('RecordingManager.append', ok, 'a recorder that is added is not kept', where(f), 'routing')


def attached(repo, rep):
    """add_recorder keeps every recorder; setup prepares the recorders of the driver and of every solver"""
    for cn in ('Driver', 'NonLinearSolver', 'LinearSolver'):
        try:
            cls = repo.cls(cn)
        except Exception:
            continue
        f = repo.method(cls, 'add_recorder')
        if f is None:
            continue
        rep.fn(f.qualname)
        res, out, I = traces(repo, f, cls, client=Trace(calls=('append',)))
        for ev, facts, v, st in res:
            ok = any(e[0] == 'call' and e[2][1] == ('attr', T.SELF, 'recorders') and e[3] == (('param', pnames(f)[0]),) for e in ev)
            rep.ob(cn + '.add_recorder', ok, 'a recorder that is added is not kept', where(f), 'routing')
    cls = repo.cls('Problem')
    f = repo.method(cls, '_start_recorders')
    rep.need(f is not None, 'Problem._start_recorders not found')
    rep.fn(f.qualname)
    c = Trace(calls=('startup', 'record_metadata', 'subgroups'))
    c.unroll = 4
    res, out, I = traces(repo, f, cls, client=c)
    root = ('attr', T.SELF, 'root')
    n = 0
    for ev, facts, v, st in res:
        st_ = [(e[2][1], e[3][0]) for e in ev if e[0] == 'call' and e[1] == 'startup' and e[3]]
        rep.ob('_start_recorders/driver', (('attr', ('attr', T.SELF, 'driver'), 'recorders'), root) in st_, 'the recorders of the driver are not prepared', where(f), 'routing')
        rec_after(rep, ev, f)
        if not any(k[0] == 'nonempty' and x for k, x in facts.items()):
            continue
        n += 1
        for s in ('nl_solver', 'ln_solver'):
            hit = [(r, g) for r, g in st_ if r[0] == 'attr' and r[2] == 'recorders' and r[1] == ('attr', g, s)]
            rep.ob('_start_recorders/' + s, len(hit) == 1, 'the recorders of the %s of a group are not prepared with that group' % s, where(f), 'routing')
        sg = [e for e in ev if e[0] == 'call' and e[1] == 'subgroups']
        rep.ob('_start_recorders/all groups', any(dict(e[4]).get('recurse') == T.TRUE and dict(e[4]).get('include_self') == T.TRUE or e[3] == (T.TRUE, T.TRUE) for e in sg), 'not every group is visited', where(f), 'routing')
    rep.need(n, '_start_recorders: no group visited')
    # who calls it: setup, after vectors exist
    f2 = repo.method(cls, 'setup')
    cal = [x for x in ast.walk(f2.node) if isinstance(x, ast.Call) and ext_nm(x) == '_start_recorders']
    rep.ob('setup/_start_recorders', bool(cal), 'setup does not prepare the recorders', where(f2), 'routing')


def rec_after(rep, ev, f):
    seen = set()
    for e in ev:
        if e[0] == 'call' and e[1] == 'startup':
            seen.add(e[2][1])
        if e[0] == 'call' and e[1] == 'record_metadata':
            rep.ob('_start_recorders/order', e[2][1] in seen, 'metadata is recorded before the recorder is prepared', e[5], 'routing')


# ---------------------------------------------------------------- readers
def readers(repo, rep, tabs):
    case = repo.cls('Case')
    f = repo.method(case, '__init__')
    rep.fn(f.qualname)
    a = pnames(f)
    D = ('param', a[2])
    res, out, I = traces(repo, f, case, client=Trace())
    attrs = {}
    for ev, facts, v, st in res:
        for e in ev:
            if e[0] == 'set' and e[1][0] == 'attr' and e[1][1] == T.SELF:
                attrs[e[1][2]] = rd_key(e[2], D)
    rep.need(len(attrs) >= 8, 'Case.__init__ was not understood')
    for s in STATUS:
        rep.ob('Case/' + s, attrs.get(s) == s, 'case.%s is read from %r' % (s, attrs.get(s)), where(f), 'reader')
    for nm, (tab, dlab) in tabs.items():
        for at, vname in (('parameters', 'params'), ('unknowns', 'unknowns'), ('resids', 'resids')):
            rep.ob('Case/%s/%s' % (at, nm), attrs.get(at) == tab.get(vname), 'case.%s is read from %r but %s stores %s as %r' % (at, attrs.get(at), nm, vname, tab.get(vname)), where(f), 'reader')
    dkey = attrs.get('derivs')

    # __getitem__: an unknown
    f = repo.method(case, '__getitem__')
    res, out, I = traces(repo, f, case, client=Trace())
    for ev, facts, v, st in res:
        rep.ob('Case/getitem', v == ('sub', ('attr', T.SELF, 'unknowns'), ('param', pnames(f)[0])), 'case[name] is not the recorded unknown', where(f), 'reader')

    for nm, cn in (('SqliteRecorder', 'SqliteCaseReader'), ('HDF5Recorder', 'HDF5CaseReader')):
        cls = repo.cls(cn)
        f = repo.method(cls, 'get_case')
        rep.fn(f.qualname)
        ID = ('param', pnames(f)[0])
        res, out, I = traces(repo, f, cls, client=Trace(calls=('Case', 'update', 'pop', '_group_to_dict')))
        n = 0
        nd = 0
        for ev, facts, v, st in res:
            n += 1
            mk = [e for e in ev if e[0] == 'call' and e[1] == 'Case']
            rep.ob(cn + '/case', len(mk) == 1 and v[0] == 'call' and ext_tail(v[1]) == 'Case', 'get_case does not return the case it reads', where(f), 'reader')
            if len(mk) != 1:
                continue
            isint = [x for k, x in facts.items() if k[0] == 'call' and ext_tail(k[1]) == 'isinstance' and k[2][0] == ID]
            key = ('sub', ('attr', T.SELF, '_case_keys'), ID) if isint == [True] else ID
            args = mk[0][3]
            rep.ob(cn + '/identity', len(args) == 3 and args[1] == key, 'the case is not labelled with the identifier asked for', mk[0][5], 'reader')
            data = args[2] if len(args) == 3 else T.NONE
            rep.ob(cn + '/data', mentions(data, lambda x: x[0] == 'sub' and x[2] == key), 'the data of another case is read', mk[0][5], 'reader')
            if cn == 'SqliteCaseReader':
                rep.ob(cn + '/table', mentions(data, lambda x: x == ('const', 'iterations')), 'cases are not read from the table of iterations', mk[0][5], 'reader')
                der = [e for e in ev if e[0] == 'set' and e[1][0] == 'attr' and e[1][2] == 'derivs']
                have = any(k[0] == 'in' and k[1] == key and x and mentions(k[2], lambda y: y == ('const', 'derivs')) for k, x in facts.items())
                if have:
                    nd += 1
                    rep.ob(cn + '/derivs', len(der) == 1 and der[0][1][1] == v and rd_key(der[0][2], None) == tabs[nm][1] and mentions(der[0][2], lambda x: x == ('const', 'derivs')) and mentions(der[0][2], lambda x: x[0] == 'sub' and x[2] == key), 'the derivatives recorded for the case are not given to it', where(f), 'reader')
            else:
                up = [e for e in ev if e[0] == 'call' and e[1] == 'update' and e[2][1] == data and mentions_attr(e[3][0], 'attrs') and mentions(e[3][0], lambda x: x[0] == 'sub' and x[2] == key)]
                sets = {key_of_cell(e[1]) for e in ev if e[0] == 'set' and e[1][0] == 'sub' and e[1][1] == data and mentions_attr(e[2], 'attrs')}
                rep.ob(cn + '/status', bool(up) or sets >= set(STATUS), 'time, success flag and message, stored as attributes, are not read', where(f), 'reader')
                have = any(k[0] == 'in' and k[1] == ('const', 'Derivs') and x for k, x in facts.items())
                if have:
                    nd += 1
                    der = [e for e in ev if e[0] == 'set' and e[1] == ('sub', data, ('const', dkey)) and mentions(e[2], lambda x: x == ('const', tabs[nm][1]))]
                    rep.ob(cn + '/derivs', len(der) == 1, 'the derivatives recorded for the case are not given to it', where(f), 'reader')
        rep.need(n, cn + '.get_case was not understood')
        rep.ob(cn + '/derivs/read', nd > 0, 'recorded derivatives are never read', where(f), 'reader')

        f = repo.method(cls, '_load')
        rep.fn(f.qualname)
        res, out, I = traces(repo, f, cls, client=Trace(calls=('_group_to_dict',)))
        n = 0
        for ev, facts, v, st in res:
            n += 1
            for at, lab in (('parameters', 'Parameters'), ('unknowns', 'Unknowns')):
                s = [e for e in ev if e[0] == 'set' and e[1] == ('attr', T.SELF, at)]
                rep.ob('%s/metadata/%s' % (cn, at), bool(s) and mentions(s[-1][2], lambda x: x == ('const', lab)) and mentions(s[-1][2], lambda x: x == ('const', 'metadata')), 'reader.%s is not the recorded metadata' % at, where(f), 'reader')
            s = [e for e in ev if e[0] == 'set' and e[1] == ('attr', T.SELF, '_case_keys')]
            rep.ob(cn + '/keys', len(s) == 1 and (cn[0] == 'S' and mentions(s[0][2], lambda x: x == ('const', 'iterations')) or cn[0] == 'H'), 'the list of cases is not that of the recorded iterations', where(f), 'reader')
            if cn[0] == 'H' and s:
                srt = [x for x in T.subterms(s[0][2]) if x[0] == 'call' and ext_tail(x[1]) == 'sorted']
                bytime = any(isinstance(x, ast.Call) and ext_nm(x) in ('sorted', 'sort') and any(k.arg == 'key' and 'timestamp' in ast.unparse(k.value) and not any(q.arg == 'reverse' for q in x.keywords) for k in x.keywords) for x in ast.walk(f.node))
                rep.ob(cn + '/order', bytime, 'cases are not indexed in the order in which they were recorded', where(f), 'reader')
        rep.need(n, cn + '._load was not understood')
        vers = [x for x in ast.walk(f.node) if isinstance(x, ast.Compare) and 'format_version' in ast.unparse(x.left)]
        mod = repo.cls(nm).module
        ver = [x.value.value for x in mod.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'format_version' for t in x.targets) and isinstance(x.value, ast.Constant)]
        if vers and ver:
            ok = ver[0] in {y.value for x in vers for y in ast.walk(x) if isinstance(y, ast.Constant)}
            rep.ob(cn + '/version', ok, 'the reader refuses the version its recorder writes', where(f), 'reader')

    # what the metadata table holds
    cls = repo.cls('SqliteRecorder')
    f = repo.method(cls, 'record_metadata')
    rep.fn(f.qualname)
    res, out, I = traces(repo, f, cls, client=Trace())
    g = ('param', pnames(f)[0])
    for ev, facts, v, st in res:
        for lab, at in (('Parameters', 'params'), ('Unknowns', 'unknowns')):
            s = [e for e in ev if e[0] == 'set' and e[1] == ('sub', ('attr', T.SELF, 'out_metadata'), ('const', lab))]
            rep.ob('SqliteRecorder.record_metadata/' + lab, len(s) == 1 and mentions(s[0][2], lambda x: x == ('attr', g, at)), 'the metadata of %s are not stored as %s' % (at, lab), where(f), 'labels')
    cls = repo.cls('InMemoryRecorder')
    f = repo.method(cls, 'record_metadata')
    res, out, I = traces(repo, f, cls, client=Trace())
    g = ('param', pnames(f)[0])
    for ev, facts, v, st in res:
        for at in ('params', 'unknowns'):
            s = [e for e in ev if e[0] == 'set' and e[1] == ('sub', ('attr', T.SELF, 'meta'), ('const', at))]
            rep.ob('InMemoryRecorder.record_metadata/' + at, len(s) == 1 and mentions(s[0][2], lambda x: x == ('attr', g, at)), 'the metadata of %s are not stored' % at, where(f), 'labels')


def rd_key(t, D):
    """the constant key of a dictionary read"""
    if t[0] == 'get' and t[2][0] == 'const' and (D is None or t[1] == D):
        return t[2][1]
    if t[0] == 'sub' and t[2][0] == 'const' and (D is None or t[1] == D):
        return t[2][1]
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' and t[2] and t[2][0][0] == 'const' and (D is None or t[1][1] == D):
        return t[2][0][1]
    if t[0] == 'phi':
        ks = {rd_key(x, D) for x in t[1]} - {None}
        return ks.pop() if len(ks) == 1 else None
    return None


# ---------------------------------------------------------------- run, then record
RUNS = ('children_solve_nonlinear', 'solve_nonlinear', 'apply_nonlinear')
RECORDS = ('record_iteration',)


def callees(repo, f):
    """methods of the same class (called on self) and functions of the same module that f calls directly"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and f.cls is not None:
                g = repo.method(f.cls, n.func.attr)
                if g is not None and g is not f and g.module is f.module:
                    out.append(g)
            elif isinstance(n.func, ast.Name):
                out += [g for g in repo.all_functions() if g.module is f.module and g.cls is None and g.name == n.func.id and g is not f]
    return out


def does(repo, f, pred, seen=None):
    seen = seen if seen is not None else set()
    if f.qualname in seen:
        return False
    seen.add(f.qualname)
    return any(pred(n) for n in ast.walk(f.node)) or any(does(repo, g, pred, seen) for g in callees(repo, f))


def is_record(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'record_iteration' and mentions_ast(n.func.value, 'recorders')


def is_run(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RUNS


def is_named(n, name):
    return isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == name or isinstance(n.func, ast.Attribute) and n.func.attr == name)


def run_then_record(repo, rep):
    total = 0
    fs = []
    for f in repo.all_functions():
        p = f.module.path
        if '/test/' in p or not ('/solvers/' in p or '/drivers/' in p or p.endswith('core/driver.py')):
            continue
        direct = [any(q(n) for n in ast.walk(f.node)) for q in (is_record, is_run)]
        if any(direct) and does(repo, f, is_record) and does(repo, f, is_run):
            fs.append(f)
    # the outermost routine is analysed, with its helpers inlined; a routine that does not number its iterations is analysed from its callers
    entries = []
    for f in fs:
        if not any(is_named(n, 'update_local_meta') for n in ast.walk(f.node)):
            up = [g for g in repo.all_functions() if g.module is f.module and (g.cls and g.cls.name) == (f.cls and f.cls.name) and g.qualname != f.qualname and any(x.qualname == f.qualname for x in callees(repo, g)) and does(repo, g, lambda n: is_named(n, 'update_local_meta'))]
            if up:
                entries += up
                continue
        entries.append(f)
    inner = {g.qualname for f in entries for g in callees(repo, f)}
    for f in entries:
        if f.qualname in inner:
            continue
        rep.fn(f.qualname)
        total += 1
        order(repo, rep, f)
    for f in fs:
        failure(repo, rep, f)
    rep.need(total >= 6, 'recording drivers and solvers not found')
    rep.saw('recording routines', total)


def counted(x):
    """a variable plus a positive number"""
    try:
        p = T.poly(x)
    except Exception:
        return False
    return len(p) == 2 and p.get(T.ONE, 0) > 0


def in_loop(f, loc):
    """is the call at this location inside a while loop of f?"""
    try:
        line = int(str(loc).rsplit(':', 1)[1])
    except (ValueError, IndexError):
        return False
    return any(isinstance(n, ast.While) and n.lineno <= line <= n.end_lineno for n in ast.walk(f.node))


def order(repo, rep, f):
    c = Trace(calls=RUNS + RECORDS + ('update_local_meta', 'create_local_meta'), iters=False, cells=lambda c: False, keep=lambda t: False)
    c.stop = set(('print_norm', 'set_desvar', 'get_constraints', 'get_objectives'))
    c.havoc_containers = True
    res, out, I = traces(repo, f, f.cls, client=c)
    n = 0
    for auto in [r[0] for r in res]:
        names = [e[1] for e in auto if e[0] == 'call']
        recs = [i for i, x in enumerate(names) if x in RECORDS]
        runs = [i for i, x in enumerate(names) if x in RUNS[:2]]
        if recs and runs:
            rep.ob(f.qualname + '/every run recorded', runs[-1] < recs[-1], 'the model is run for an iteration that is not recorded', where(f), 'order')
    for auto in [r[0] for r in res] + [st.auto for st, e in out.exc]:
        fresh = False
        at = None
        last = None
        for e in auto:
            if e[0] != 'call':
                continue
            if e[1] == 'update_local_meta':
                num = e[3][1] if len(e[3]) > 1 else dict(e[4]).get('iteration', T.NONE)
                first = at in (None, ('start',)) and last is None
                parts = num[1] if num[0] == 'tuple' else (num,)
                const = all(x[0] == 'const' for x in parts)
                rep.ob(f.qualname + '/counts', first and const or any(counted(x) for x in parts), 'the iteration number is not a count that has been advanced for this iteration: %s' % T.show(num), e[5], 'coordinate')
                at = num
                fresh = False
            elif e[1] == 'create_local_meta':
                at = ('start',)
            elif e[1] in RUNS:
                fresh = True
            else:
                n += 1
                rep.ob(f.qualname + '/run then record', fresh, 'an iteration is recorded before the model has been run for it', e[5], 'order')
                rep.ob(f.qualname + '/own number', at is not None, 'an iteration is recorded under the number of another one', e[5], 'coordinate')
                if in_loop(f, e[5]):
                    rep.ob(f.qualname + '/own number', at is not None and any(counted(x) for x in (at[1] if at[0] == 'tuple' else (at,))), 'iterations of a loop are recorded under one number', e[5], 'coordinate')
                fresh = False
                last, at = at, None
    rep.need(n, f.qualname + ': no recorded iteration found')


def marked(repo, f, h, depth=0):
    """constant keys stored by a handler, directly or by a helper it calls"""
    marks = {}
    for x in ast.walk(h):
        if isinstance(x, ast.Assign):
            for tg in x.targets:
                for e in (tg.elts if isinstance(tg, ast.Tuple) else [tg]):
                    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
                        v = x.value
                        if isinstance(tg, ast.Tuple) and isinstance(v, ast.Tuple) and len(v.elts) == len(tg.elts):
                            v = v.elts[tg.elts.index(e)]
                        marks[e.slice.value] = v
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update':
            for k in x.keywords:
                marks[k.arg] = k.value
            for d in x.args:
                if isinstance(d, ast.Dict):
                    for k, v in zip(d.keys, d.values):
                        if isinstance(k, ast.Constant):
                            marks[k.value] = v
                elif isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'dict':
                    for k in d.keywords:
                        marks[k.arg] = k.value
        elif isinstance(x, ast.Call) and depth < 3:
            g = None
            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and f.cls is not None:
                g = repo.method(f.cls, x.func.attr)
            elif isinstance(x.func, ast.Name):
                g = ([y for y in repo.all_functions() if y.module is f.module and y.cls is None and y.name == x.func.id] or [None])[0]
            if g is not None:
                marks.update(marked(repo, g, g.node, depth + 1))
    return marks


def failure(repo, rep, f):
    """a handler that swallows the failure of a model run before the record must mark the record"""
    trys = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('solve_nonlinear', 'children_solve_nonlinear') for s in n.body for x in ast.walk(s)):
            trys.append(n)
    for t in trys:
        for h in t.handlers:
            if any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                continue
            after = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'record_iteration' and x.lineno > t.end_lineno for x in ast.walk(f.node))
            inside = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'record_iteration' for s in t.body for x in ast.walk(s))
            if inside or not after:
                continue
            marks = marked(repo, f, h)
            ok = 'success' in marks and isinstance(marks['success'], ast.Constant) and not marks['success'].value
            rep.ob(f.qualname + '/failure marked', ok, 'the record of a run whose failure was swallowed says it succeeded', where(f, h), 'status')
            rep.ob(f.qualname + '/failure message', 'msg' in marks, 'the record of a failed run has no message', where(f, h), 'status')
    return trys


def swallowed(repo, rep):
    """_try_case: every swallowed failure is marked in the record"""
    cls = repo.cls('PredeterminedRunsDriver')
    f = repo.method(cls, '_try_case')
    rep.need(f is not None, '_try_case not found')
    rep.fn(f.qualname)
    n = 0
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try):
            for h in t.handlers:
                n += 1
                marks = marked(repo, f, h)
                rep.ob('_try_case/failure marked', 'success' in marks and isinstance(marks['success'], ast.Constant) and not marks['success'].value, 'the record of a failed case says it succeeded', where(f, h), 'status')
                rep.ob('_try_case/failure message', 'msg' in marks, 'the record of a failed case has no message', where(f, h), 'status')
    rep.need(n, '_try_case: no handler found')


def check(repo, rep, tier):
    selection(repo, rep)
    coordinates(repo, rep)
    tabs = {}
    for cn in ('SqliteRecorder', 'HDF5Recorder', 'InMemoryRecorder'):
        cls = repo.cls(cn)
        tab, _ = labels(repo, rep, cls)
        d = derivs(repo, rep, cls)
        if cn != 'InMemoryRecorder':
            tabs[cn] = (tab, d)
    snapshots(repo, rep)
    csv_rows(repo, rep)
    dump_text(repo, rep)
    manager(repo, rep)
    attached(repo, rep)
    readers(repo, rep, tabs)
    run_then_record(repo, rep)
    swallowed(repo, rep)
