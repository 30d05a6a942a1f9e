#!/usr/bin/env python3
"""
plant.py [--no-tests] [--no-check] [ID...]   try the changes kept in seeded/

For each change: a copy of /repo gets the patch; the stable tests must still
pass, demo.sh must pass on a clean copy and fail on the changed one, the patch
must alter a line of the original repository. Then the property's quick check
is run against the copy. Prints one line per change.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
BASE = subprocess.run(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'],
                      capture_output=True, text=True).stdout.split()[0]
ENV = dict(os.environ, NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env or ENV,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def stable(d):
    """stable tests that do not pass in d"""
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    good = set()
    for f in sorted({w.split('::')[0].split('.')[1] for w in want}):
        rc, o = sh([PY, '-m', 'pytest', 'tests/%s.py' % f, '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '-p', 'no:xdist', '--randomly-seed=0', '--randomly-dont-reorganize', '-rA'], cwd=d)
        good |= {'tests.%s::%s' % (f, t) for t in re.findall(r'^PASSED tests/%s\.py::(\w+)' % f, o, re.M)}
    return [w for w in want if w not in good]


def original_lines(d):
    """does the patch remove or replace a line of the original repository"""
    rc, o = sh(['git', 'diff', '-U0'], cwd=d)
    f, n = None, 0
    for l in o.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            a, c = int(m[1]), int(m[2]) if m[2] is not None else 1
            if c:
                rc, b = sh(['git', 'blame', '-s', '-l', '-L', '%d,+%d' % (a, c), 'HEAD', '--', f], cwd=d)
                n += sum(x.lstrip('^')[:38] == BASE[:38] for x in b.splitlines())
    return n


def one(i, tests=True, check=True):
    s = os.path.join(V, 'seeded', i)
    meta = json.load(open(s + '/meta.json'))
    t = tempfile.mkdtemp(prefix='plant_')
    out = []
    try:
        d, aux = t + '/repo', t + '/aux'
        sh(['cp', '-a', R, d])
        sh(['git', 'checkout', '-q', '--', '.'], cwd=d)
        shutil.copytree(s, aux, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, o = sh(['bash', aux + '/demo.sh'], cwd=d, timeout=300)
        if rc:
            out.append('DEMO FAILS CLEAN: ' + o[-300:])
        rc, o = sh(['git', 'apply', s + '/patch.diff'], cwd=d)
        if rc:
            return i, 'DOES NOT APPLY ' + o
        if not original_lines(d):
            out.append('NO ORIGINAL LINE')
        rc, o = sh(['bash', aux + '/demo.sh'], cwd=d, timeout=300)
        if not rc:
            out.append('DEMO PASSES PATCHED')
        demo = o.strip().splitlines()[-1:] or ['']
        if tests:
            bad = stable(d)
            if bad:
                out.append('TESTS FAIL: %s' % bad)
        if check:
            rc, o = sh([V + '/check', meta['property']], env=dict(os.environ, LOM_REPO=d, VERIF_SEED='1'))
            got = rc == 1 and 'VIOLATION property=%s ' % meta['property'] in o
            line = [x for x in o.splitlines() if x.startswith('seed=')][:1] or [o[-200:]]
            out.append(('caught: ' if got else 'MISSED (rc %d): ' % rc) + line[0][:160])
        return i, '; '.join(out) + '   [demo: %s]' % demo[0][:80]
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    a = sys.argv[1:]
    kw = dict(tests='--no-tests' not in a, check='--no-check' not in a)
    ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
    with ThreadPoolExecutor(2 if kw['check'] else 4) as ex:
        for i, r in ex.map(lambda i: one(i, **kw), ids):
            print('%-34s %s' % (i, r), flush=True)
