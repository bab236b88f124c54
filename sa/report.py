"""Verdicts, known findings and evidence."""
import json
import os
import sys
import time

from .repo import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.obligations = []      # dicts
        self.analysed = {}         # counters
        self.samples = []
        self.notes = []
        self.functions = set()

    def saw(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def fn(self, *quals):
        self.functions.update(quals)

    def ob(self, key, ok, msg='', where='', rule=''):
        """one decided obligation; `key` names the construct, never a line number"""
        if len(msg) > 400:
            msg = msg[:397] + '...'
        self.obligations.append({'key': key, 'ok': bool(ok), 'msg': '' if ok else msg, 'where': where, 'rule': rule})
        return ok

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    @property
    def bad(self):
        out, seen = [], set()
        for o in self.obligations:
            if not o['ok'] and o['key'] not in seen:
                seen.add(o['key'])
                out.append(o)
        return out


def load_known(pid):
    res = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                rest = ln.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                res[key.strip()] = what.strip()
    return res


def finish(rep, tier, seed, t0, explanation, technique_rule, assumptions):
    known = load_known(rep.pid)
    bad = rep.bad
    new = [o for o in bad if o['key'] not in known]
    listed = [o for o in bad if o['key'] in known]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {
        'explanation': explanation,
        'rule': technique_rule,
        'obligations_decided': len(rep.obligations),
        'obligations_holding': sum(1 for o in rep.obligations if o['ok']),
        'distinct_constructs': len({o['key'] for o in rep.obligations}),
        'functions_analysed': len(rep.functions),
        'analysed': rep.analysed,
        'functions': sorted(rep.functions)[:200],
        'samples': [{'key': o['key'], 'where': o['where'], 'ok': o['ok'], 'msg': o['msg']}
                    for o in rep.obligations][:60],
        'known_findings': [o['key'] for o in listed],
    }
    ev = {'property': rep.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', rep.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations over %d constructs, %d functions; %s' % (
        rep.pid, len(rep.obligations), cov['distinct_constructs'], len(rep.functions),
        ', '.join('%s=%d' % kv for kv in sorted(rep.analysed.items()))))
    for o in listed:
        print('KNOWN-FINDING: property=%s %s (%s) %s' % (rep.pid, o['key'], o['where'], known[o['key']]))
    if new:
        rp = os.path.join(HERE, 'evidence', rep.pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for o in new:
            print('  %s [%s] %s: %s' % (o['where'], o['rule'], o['key'], o['msg']))
        print('VIOLATION property=%s replay=%s' % (rep.pid, os.path.relpath(rp, HERE)))
        return 1
    return 0
