"""tools/mutall.py FILE: run lists of textual mutations in parallel.
FILE defines M = [(ids, file, old, new[, n])] that should be reported and OK = [...] that should stay quiet."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
here = os.path.dirname(os.path.abspath(__file__))


def go(x):
    want, m = x
    m = (' '.join(m[0]) if isinstance(m[0], list) else m[0], m[1].replace('openmdao/', '')) + tuple(m[2:])
    a = [str(y).replace('\\', '\\\\') for y in m[:4]] + [str(y) for y in m[4:]]
    r = subprocess.run(['python3-vt', os.path.join(here, 'mut.py')] + a, capture_output=True, text=True)
    o = (r.stdout + r.stderr[-300:]).strip()
    good = all(('rc=%d' % want) in l for l in o.splitlines()) and 'rc=' in o
    return good, want, m, o


jobs = [(1, m) for m in ns.get('M', [])] + [(0, m) for m in ns.get('OK', [])]
only = {int(x) for x in os.environ.get('ONLY', '').split(',') if x}
nums = [k for k in range(len(jobs)) if not only or k in only]
jobs = [jobs[k] for k in nums]
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(go, jobs))
for k, (good, want, m, o) in zip(nums, res):
    if not good or '-v' in sys.argv: print('%s #%d want %d: %s -> %s | %s' % ('  ' if good else 'XX', k, want, m[2].strip()[:50].replace('\n', '~'), m[3].strip()[:50].replace('\n', '~'), o[-260:].replace('\n', ' ## ') if not good or '-v' in sys.argv else ''))
print('%d of %d as wanted' % (sum(r[0] for r in res), len(res)))
