"""trybugs.py [ids]: apply each planted bug in a scratch copy of /repo and run its property's quick check against that copy."""
import json
import os
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/try_wt'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
subprocess.run(['rm', '-rf', W])
subprocess.run(['cp', '-a', '/repo', W])
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    p = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
    r = subprocess.run(['git', '-C', W, 'apply', d + '/patch.diff'])
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY', flush=True)
        continue
    t = time.time()
    r = subprocess.run([V + '/check', p, 'quick'], env=dict(os.environ, VF_REPO=W), capture_output=True, text=True)
    v = re.search(r'^VIOLATION property=' + p, r.stdout, re.M)
    print('%-20s %s %s rc=%d %.0fs' % (i, p, 'caught' if r.returncode == 1 and v else 'MISSED', r.returncode, time.time() - t), flush=True)
subprocess.run(['rm', '-rf', W])
