"""tools/seed.py SPEC.py [--tests]: build /verif/seeded/<id>/ from a spec (ID, PROP, EDITS, NEEDS, BREAKS, DEMO), confirm it in a
scratch copy of /repo (demo passes without, fails with the change; optionally the stable tests) and run the property's check on it."""
import json, os, re, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
d = '/tmp/seed_%s_%d' % (ID, os.getpid())
ENV = '. /opt/vp/env.sh; export PYTHONPATH=%s:/opt/vp/compat PYTHONWARNINGS=ignore; '
def sh(cmd, cwd):
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)
subprocess.check_call(['cp', '-a', '/repo', d])
try:
    out = '/verif/seeded/' + ID
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write(spec['DEMO'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONWARNINGS=ignore\nexec timeout 200 python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    rc0, o0 = sh(ENV % d + 'timeout 200 python %s/demo.py' % out, d)
    for fn, old, new in spec['EDITS']:
        p = os.path.join(d, 'openmdao', fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    rc1, o1 = sh(ENV % d + 'timeout 200 python %s/demo.py' % out, d)
    print(ID, 'demo clean rc=%d patched rc=%d' % (rc0, rc1))
    if rc0: print(o0[-1500:])
    print('   ', o1.strip().splitlines()[-1:][0][:200] if o1.strip() else '')
    r = subprocess.run(['python3-vt', '/verif/check.py', spec['PROP']], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    print('    check rc=%d %s' % (r.returncode, ' || '.join(x.strip()[:250] for x in r.stdout.splitlines() if x.startswith('  ') or 'BROKEN' in x)[:600]))
    if '--tests' in sys.argv:
        # the stable tests, on /repo itself with the change applied and undone straight afterwards
        assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
        try:
            subprocess.check_call(['git', '-C', '/repo', 'apply', out + '/patch.diff'])
            print('   ', sh('bash /tmp/demo/runtests.sh', '/repo')[1].strip()[-300:])
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
finally:
    shutil.rmtree(d)
