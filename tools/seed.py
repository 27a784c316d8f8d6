#!/usr/bin/env python3
"""Check a planted change: tools/seed.py ID [PROPERTY...]

Copies /repo to a scratch folder, requires demo.sh to pass there, applies seeded/ID/patch.diff, requires the stable
tests to pass and demo.sh to fail, then runs the named checks (default: the property of meta.json) against the copy."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(HERE, 'seeded', sid)
meta = json.load(open(d + '/meta.json'))
props = sys.argv[2:] or [meta['property']]
w = tempfile.mkdtemp(prefix='seed-')
r = w + '/repo'
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PATH='/opt/venv/bin:' + os.environ['PATH'])
ok = True
try:
    shutil.copytree('/repo', r, symlinks=True)
    dd = w + '/demo'
    shutil.copytree(d, dd)
    demo = lambda: subprocess.run(['bash', dd + '/demo.sh'], cwd=r, env=env, capture_output=True, text=True, timeout=300)
    a = demo()
    print('demo unchanged:', a.returncode, a.stdout[-300:], a.stderr[-600:] if a.returncode else '')
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=r)
    b = demo()
    print('demo changed  :', b.returncode, b.stdout[-150:], b.stderr.strip()[-150:])
    ok &= a.returncode == 0 and b.returncode != 0
    if '--no-tests' not in sys.argv:
        pl = open('/opt/vp/lib/skip_testing_init.py').read().replace('/repo', r)
        os.makedirs(w + '/lib')
        open(w + '/lib/skip_testing_init.py', 'w').write(pl)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-c', '/dev/null', '--rootdir=' + r, '-p', 'skip_testing_init', '-p', 'no:cacheprovider',
                            '-n', '8', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + w + '/j.xml', 'Testing'], cwd=r,
                           env=dict(env, PYTHONPATH=r + ':' + w + '/lib'), capture_output=True, text=True)
        import xml.etree.ElementTree as E
        passed = {c.get('classname') + '::' + c.get('name') for c in E.parse(w + '/j.xml').iter('testcase')
                  if not [x for x in c if x.tag in ('failure', 'error', 'skipped')]}
        if '--debug' in sys.argv:
            print(t.stdout[-1500:], sorted(passed)[:3])
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [s for s in stable if s not in passed]
        print('stable tests failing:', len(miss), miss[:5])
        ok &= not miss
    for p in props:
        if p.startswith('--'):
            continue
        c = subprocess.run(['python3', HERE + '/check.py', p, 'quick'], cwd=HERE, env=dict(os.environ, PYNITE_REPO=r), capture_output=True, text=True)
        print(p, 'exit', c.returncode, [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')][:1], c.stdout.splitlines()[-1:], c.stderr[-300:])
        ok &= c.returncode == 1
finally:
    shutil.rmtree(w)
print(sid, 'OK' if ok else 'NOT OK')
