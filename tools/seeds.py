"""Runs the check of each planted bug against /repo with the bug applied and
undoes it.  Development only: no check reads seeded/."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    d = os.path.join(S, i)
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'],
                   check=True)
    t = time.time()
    try:
        r = subprocess.run(['python3-vt', 'check.py', prop], cwd=HERE,
                           capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'],
                       check=True)
    lines = r.stdout.strip().split('\n')
    print(i, prop, 'exit', r.returncode, '%.0fs' % (time.time() - t))
    for x in lines:
        if x.startswith(('VIOLATION', 'failing', 'failed', 'what')):
            print('    ' + x[:220])
    sys.stdout.flush()
