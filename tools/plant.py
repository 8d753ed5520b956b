"""plant.py SPEC [ids]: turn the planted-bug specifications of a Python file into /verif/seeded/<id>/, after confirming each in a scratch copy.

A spec is bug(id, prop, file, [(old, new), ...], demo, needs, breaks).  Confirmed: the patch applies, the demo passes on the
unchanged tree and fails with the patch, and the stable tests still pass with it."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant_wt'
PY = '/opt/venv/bin/python'
B = []


def bug(id, prop, file, edits, demo, needs, breaks):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


ENV = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def tests():
    base = set(json.load(open('/opt/vp/BASELINE.json')) if False else [])
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=300', '--randomly-seed=0',
                        '--randomly-dont-reorganize', '--continue-on-collection-errors', '--ignore=cdmir/tests/test_anm.py', '-rfE'],
                       cwd=W, env=ENV, capture_output=True, text=True, timeout=240)
    return r.stdout


exec(open(sys.argv[1]).read())
want = sys.argv[2:]
sh('rm -rf ' + W)
sh('cp -a /repo ' + W)
REF = os.path.join('/tmp', 'plant_ref.txt')


def failed(out):
    return sorted(l.split(' - ')[0] for l in out.splitlines() if l.startswith(('FAILED', 'ERROR')))


if not os.path.exists(REF):
    open(REF, 'w').write('\n'.join(failed(tests())))
ref = [l for l in open(REF).read().split('\n') if l]
for b in B:
    if want and b['id'] not in want:
        continue
    sh('git -C %s checkout -q -- .' % W)
    d = os.path.join(V, 'seeded', b['id'])
    if os.path.exists(d) and not want:
        continue
    tmp = '/tmp/plant_demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    a = subprocess.run(['bash', tmp + '/demo.sh'], cwd=W, capture_output=True, text=True)
    if a.returncode:
        print(b['id'], 'DEMO FAILS UNCHANGED', a.stderr[-600:])
        continue
    p = os.path.join(W, b['file'])
    s = open(p).read()
    ok = True
    for o, n in b['edits']:
        if s.count(o) < 1:
            print(b['id'], 'NOT FOUND', o)
            ok = False
            break
        if s.count(o) > 1:
            print(b['id'], 'ambiguous', o)
        s = s.replace(o, n, 1)
    if not ok:
        continue
    open(p, 'w').write(s)
    a = subprocess.run(['bash', tmp + '/demo.sh'], cwd=W, capture_output=True, text=True)
    if a.returncode == 0:
        print(b['id'], 'DEMO PASSES WITH THE BUG')
        continue
    try:
        f = [x for x in failed(tests()) if x not in ref]
    except subprocess.TimeoutExpired:
        sh('pkill -9 -f randomly-dont-reorganize')
        f = 'they do not end'
    if f:
        print(b['id'], 'TESTS CATCH', f)
        continue
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
    shutil.copy(tmp + '/demo.py', d)
    shutil.copy(tmp + '/demo.sh', d)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(b['id'], 'kept;', flush=True); print('   ', (a.stderr or a.stdout).strip().split('\n')[-1][:100])
sh('rm -rf ' + W)
