"""Decision tables: the outcome of every path of a routine against what its branch conditions require."""
import itertools


def decide(paths, atoms, classify, expected, actual, possible=None):
    """paths: (events, facts, value, state);  classify(term, truth) -> iterable of (atom, bool) or None
    yields (path, assignment, wanted, got) for every completion of the path's conditions that is decided wrongly"""
    for p in paths:
        known, clash = {}, False
        for t, x in p[1].items():
            for a, b in classify(t, x) or ():
                if known.get(a, b) != b:
                    clash = True
                known[a] = b
        if clash:
            continue
        got = actual(p)
        free = [a for a in atoms if a not in known]
        for vals in itertools.product((False, True), repeat=len(free)):
            asg = dict(known)
            asg.update(zip(free, vals))
            if possible is not None and not possible(asg):
                continue
            want = expected(asg)
            if want is not None and want != got:
                yield p, asg, want, got
                break


def words(asg, names=None):
    return ', '.join(('' if v else 'not ') + k for k, v in sorted(asg.items()) if names is None or k in names)
