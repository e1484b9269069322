#!/usr/bin/env python3
"""stress.py DIR [KINDS [PIDS]]: runs the checks on every behaviour-preserving rewrite of the package.

DIR holds one tree per kind (written by refactor.py); prints every check that is not quiet.
"""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.abspath(sys.argv[1])
kinds = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] else sorted(
    k for k in os.listdir(d) if os.path.isdir(os.path.join(d, k, 'kerncraft')))
pids = sys.argv[3].split(',') if len(sys.argv) > 3 else sorted(
    f[:-3].upper() for f in os.listdir(V + '/checks') if f[0] == 'p' and f[1:-3].isdigit())


def one(job):
    k, p = job
    ev = os.path.join(d, k, 'ev', p)
    os.makedirs(ev, exist_ok=True)
    try:
        r = subprocess.run([sys.executable, V + '/check.py', p, '--repo', os.path.join(d, k)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=900, env=dict(os.environ, KSA_EVIDENCE=ev))
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 'timeout', ''
    if rc == 0:
        return None
    lines = [x[:260] for x in out.splitlines() if not x.startswith('KNOWN')]
    return '%s %s rc=%s\n    %s' % (k, p, rc, '\n    '.join(lines[-6:]))


with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
    for o in ex.map(one, [(k, p) for k in kinds for p in pids]):
        if o:
            print(o, flush=True)
print('done: %d kinds x %d checks' % (len(kinds), len(pids)))
