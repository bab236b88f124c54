"""tools/mut.py ID file old new [n]: apply a textual change to a scratch copy and run one check on it"""
import os, shutil, subprocess, sys
ids, fn, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else None
d = '/tmp/mut_%d' % os.getpid()
shutil.copytree(os.environ.get('BASE', '/repo') + '/openmdao', d + '/openmdao', ignore=shutil.ignore_patterns('__pycache__', 'test', 'examples'))
try:
    p = os.path.join(d, 'openmdao', fn)
    s = open(p).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    c = s.count(old)
    if not c:
        sys.exit('NOT FOUND: ' + old)
    if n is None:
        s = s.replace(old, new)
    else:
        parts = s.split(old)
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, 'w').write(s)
    import warnings; warnings.simplefilter('ignore'); p.endswith('.py') and compile(s, p, 'exec')
    for i in ids.split(','):
        r = subprocess.run(['python3-vt', '/verif/check.py', i], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if l.startswith('  ') or 'BROKEN' in l]
        print('%s rc=%d (%d sites) %s' % (i, r.returncode, c, ' || '.join(x.strip()[:170] for x in out[:2])))
finally:
    shutil.rmtree(d)
