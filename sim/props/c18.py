"""C18 external tensor solver results are never stale or torn"""
import io
import os
import random
import resource
import shutil
import signal
import subprocess
import tempfile
import numpy as np
from ..common import Violation, lom_frames, describe
from .. import seams
from ..seams import World, FAULTS

ID = 'C18'
RUNS = dict(quick=36000, thorough=3600000)
RULE = ('one evaluation = one history of calls of the solver interface with different tensors and ranks in one '
        'directory, each call possibly meeting a fault: solver missing, failing or killed before, while or after '
        'writing, result missing, torn, garbled or replaced by a directory, disk full while writing the input, '
        'failing allocation, interrupt; non-trivial = distinct event log')
MEASURE = 'digest of faults, exchanged files and results'
ASSUMPTIONS = ['one caller at a time uses the exchange directory',
               'a result file cut at a line boundary by a solver that reports success is indistinguishable from a result']
REAL = ['lom.experiments.dbtf_reconstruct', 'file system (scratch directory)', 'subprocess.call/check_call/run']
STUB = ['external solver and process creation (subprocess.Popen, os.system)', 'location of the solver directory (os.chdir)']

FAULTS_EXEC = ('exec_missing', 'exec_denied', 'exec_nomem', 'exit_before', 'exit_after', 'exit_half', 'killed_before', 'killed_half',
               'killed_after', 'no_output', 'one_missing', 'torn_line', 'garbled', 'directory', 'out_of_range',
               'interrupt', 'disk_full', 'disk_full', 'alloc', 'line', 'stale_locked', 'empty_line')


def gen(rng, tier, i):
    calls = []
    for _ in range(rng.randint(1, 5)):
        shape = [rng.randint(1, 4) for _ in range(3)]
        L = rng.randint(1, 3)
        dens = rng.choice([0, .3, .5, 1])
        c = dict(shape=shape, L=L,
                 X=[[[rng.choice([-1, 0, 1]) if rng.random() < .7 else 1 for _ in range(shape[2])]
                     for _ in range(shape[1])] for _ in range(shape[0])],
                 factors=[[[i, j] for i in range(k) for j in range(L) if rng.random() < dens] for k in shape],
                 dtype=rng.choice(['int8', 'int8', 'bool', 'float64']), out=rng.random() < .8,
                 hyper=rng.choice([None, None, [5, .2, 7]]), newline=rng.random() < .8,
                 shuffle=rng.randrange(1000))
        if calls and rng.random() < .4:      # same shape as before: stale results would fit
            c['shape'], c['L'], c['X'] = calls[-1]['shape'], calls[-1]['L'], calls[-1]['X']
            c['factors'] = [[[i, j] for i in range(k) for j in range(c['L']) if rng.random() < .5]
                            for k in c['shape']]
        c['which'] = rng.randrange(3)
        if rng.random() < .55:
            f = rng.choice(FAULTS_EXEC)
            c['fault'] = f
            c['code'] = rng.choice([1, 2, 127, 139])
            c['at'] = rng.choice([1, 2, 3, 5, 8, 13, 30, 60]) if f in ('alloc', 'line') else rng.randint(0, 120)
        calls.append(c)
    return dict(ops=calls, home=rng.choice(['first', 'second']), stale=rng.random() < .5, seed=rng.randrange(10 ** 6))


class Solver:
    """the simulated external program"""

    def __init__(self, c):
        self.c = c
        self.seen = None
        self.ran = False
        self.cmd = None
        self.hit = None

    def start(self, args):
        f = self.c.get('fault')
        if isinstance(args, str):
            args = args.split()
        self.cmd = [os.fsdecode(a) if not isinstance(a, str) else a for a in args]
        if f == 'exec_missing':
            self.hit = f
            raise FileNotFoundError(2, 'No such file or directory', self.cmd[0])
        if f == 'exec_denied':
            self.hit = f
            raise PermissionError(13, 'Permission denied', self.cmd[0])
        if f == 'exec_nomem':
            self.hit = f
            raise BlockingIOError(11, 'Resource temporarily unavailable')

    def finish(self):
        if self.ran:
            return self.rc
        self.ran = True
        f, c = self.c.get('fault'), self.c
        self.rc = 0
        try:
            with open('./data/mytensor.tensor') as fh:
                self.seen = fh.read()
        except OSError:
            self.seen = None
        if f == 'interrupt':
            self.hit = f
            raise seams.SimInterrupt('injected interrupt while the solver runs')
        if f in ('exit_before', 'killed_before'):
            self.hit = f
            self.rc = c['code'] if f.startswith('exit') else -9
            return self.rc
        if f == 'no_output':
            self.hit = f
            return 0
        rs = random.Random(c['shuffle'])
        for k in range(3):
            name = './output/sample_factor%d_sparse.txt' % (k + 1)
            rows = ['%d,%d' % (i, j) for i, j in c['factors'][k]]
            rs.shuffle(rows)
            if f == 'one_missing' and k == c['which']:
                self.hit = f
                continue
            if f == 'directory' and k == c['which']:
                self.hit = f
                if not os.path.isdir(name):
                    if os.path.exists(name):
                        os.unlink(name)
                    os.mkdir(name)
                continue
            text = '\n'.join(rows) + ('\n' if c['newline'] and rows else '')
            if f in ('exit_half', 'killed_half') and k == c['which']:
                text = text[:len(text) // 2]
            if k == c['which']:
                if f == 'torn_line':
                    self.hit = f
                    text = text + ('' if not rows or c['newline'] else '\n') + '0,'
                elif f == 'garbled':
                    self.hit = f
                    text = 'Exception in thread "main" java.lang.OutOfMemoryError\n' + text
                elif f == 'out_of_range':
                    self.hit = f
                    text = text + ('' if not rows or c['newline'] else '\n') + '%d,%d\n' % (c['shape'][k], 0)
                elif f == 'empty_line':      # harmless
                    text = text + '\n'
            with open(name, 'w') as fh:
                fh.write(text)
            if f in ('exit_half', 'killed_half') and k == c['which']:
                self.hit = f
                self.rc = c['code'] if f.startswith('exit') else -15
                return self.rc
        if f in ('exit_after', 'killed_after'):
            self.hit = f
            self.rc = c['code'] if f.startswith('exit') else -11
        return self.rc


def make_popen(solver):
    class SimPopen:
        def __init__(self, args, *a, **k):
            self.args = args
            self.returncode = None
            self.pid = 4242
            txt = k.get('text') or k.get('universal_newlines') or k.get('encoding')
            self._empty = '' if txt else b''
            self._pipe = [k.get('stdout') == subprocess.PIPE, k.get('stderr') == subprocess.PIPE]
            self.stdin = None
            mk = io.StringIO if txt else io.BytesIO
            self.stdout = mk() if self._pipe[0] else None
            self.stderr = mk() if self._pipe[1] else None
            solver.start(args)

        def wait(self, timeout=None):
            if self.returncode is None:
                self.returncode = solver.finish()
            return self.returncode

        def poll(self):
            return self.wait()

        def communicate(self, input=None, timeout=None):
            self.wait()
            return (self._empty if self._pipe[0] else None, self._empty if self._pipe[1] else None)

        def kill(self):
            pass
        terminate = send_signal = kill

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if a[0] is None:
                self.wait()
            return False
    return SimPopen


class Box:
    """scratch directory, redirected chdir and process creation"""

    def __init__(self, home):
        self.home = home

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='lomsim18-')
        os.makedirs(os.path.join(self.dir, 'data'))
        os.makedirs(os.path.join(self.dir, 'output'))
        self.cwd = os.getcwd()
        self.saved = (os.chdir, subprocess.Popen, os.system)
        real = os.chdir

        def chdir(path):
            p = os.fspath(path)
            if p.startswith('/Users/'):
                if self.home != 'first':
                    raise FileNotFoundError(2, 'No such file or directory', p)
                return real(self.dir)
            if p.startswith('/home/'):
                return real(self.dir)
            if os.path.realpath(p).startswith(self.dir) or os.path.realpath(p) == self.cwd:
                return real(p)
            raise FileNotFoundError(2, 'No such file or directory', p)
        os.chdir = chdir
        return self

    def solver(self, c):
        s = Solver(c)
        subprocess.Popen = make_popen(s)

        def system(cmd):
            try:
                s.start(cmd)
            except OSError:
                return 127 << 8
            rc = s.finish()
            return rc << 8 if rc >= 0 else -rc
        os.system = system
        return s

    def __exit__(self, *a):
        os.chdir, subprocess.Popen, os.system = self.saved
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)
        return False


class full_disk:
    """files cannot grow beyond a number of bytes"""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        if self.limit is None:
            return
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))

    def __exit__(self, *a):
        if self.limit is None:
            return
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


def parse_input(text):
    """(shape, base, set of entries) of the exchange file"""
    import re
    nums, entries, base = None, [], 0
    for line in text.splitlines():
        if line.startswith('#'):
            m = re.search(r'(\d+)-by-(\d+)-by-(\d+)', line)
            if m:
                nums = [int(x) for x in m.groups()]
            m = re.search(r'base index:\s*(\d+)', line)
            if m:
                base = int(m.group(1))
        elif line.strip():
            entries.append(tuple(int(x) for x in line.split(',')))
    return nums, base, entries


def dense(c):
    out = []
    for k, f in zip(c['shape'], c['factors']):
        m = np.zeros([k, c['L']], dtype=bool)
        for i, j in f:
            m[i, j] = True
        out.append(m)
    return out


def run(sc, st):
    import lom.experiments as ex
    with Box(sc['home']) as box:
        if sc['stale']:                 # left behind by somebody else
            for k in range(3):
                with open(os.path.join(box.dir, 'output', 'sample_factor%d_sparse.txt' % (k + 1)), 'w') as fh:
                    fh.write('0,0\n')
            with open(os.path.join(box.dir, 'data', 'mytensor.tensor'), 'w') as fh:
                fh.write('# tensor size: 9-by-9-by-9\n# tensor base index: 0\n8,8,8\n')
        for n, c in enumerate(sc['ops']):
            one(sc, st, box, n, c, ex)


def one(sc, st, box, n, c, ex):
    f = c.get('fault')
    X = np.array(c['X'], dtype=np.int8)
    pos = X == 1
    if c['dtype'] == 'bool':
        X = pos.copy()
    else:
        X = X.astype(c['dtype'])
    orig = X.copy()
    fault = dict(kind=f, at=c['at']) if f in ('alloc', 'line') else None
    W = World(seed=sc['seed'], fault=fault)
    s = box.solver(c)
    # remains of an earlier fault that only this harness can have produced
    for k in range(3):
        name = os.path.join(box.dir, 'output', 'sample_factor%d_sparse.txt' % (k + 1))
        if os.path.isdir(name):
            os.rmdir(name)
    if f == 'stale_locked':
        name = os.path.join(box.dir, 'output', 'sample_factor%d_sparse.txt' % (c['which'] + 1))
        if os.path.isfile(name):
            os.unlink(name)
        if not os.path.isdir(name):
            os.mkdir(name)
    args = dict() if c['hyper'] is None else dict(hyperparms=c['hyper'])
    size = 40 + 6 * int(pos.sum())
    limit = c['at'] * size // 120 if f == 'disk_full' else None
    exc = res = None
    try:
        with full_disk(limit):
            with W:
                res = ex.dbtf_reconstruct(X, c['L'], compute_output=c['out'], **args)
    except FAULTS as e:
        exc = e
    except Exception as e:
        exc = e
    finally:
        os.chdir(box.cwd)
    what = 'call %d' % n
    W.log(n, f, s.hit, s.seen, s.cmd, type(exc).__name__)
    failing = s.hit or bool(W.fired)
    if W.fired:
        st.add('fault.' + W.fired[0][0])
    if s.hit:
        st.add('fault.solver_' + s.hit)
    if not (X.dtype == orig.dtype and np.array_equal(X, orig)):
        raise Violation('%s changed the tensor of the caller' % what)
    if f in ('disk_full', 'stale_locked'):
        st.add('fault.' + f)
    if exc is not None:
        if not failing and f not in ('disk_full', 'stale_locked'):
            if lom_frames(exc):
                raise Violation('%s raised %s' % (what, describe(exc)))
            raise exc
        st.add('errors')
        st.world(W)
        return
    if s.hit:
        raise Violation('%s returned although the solver met: %s' % (what, s.hit))
    if not s.ran:
        raise Violation('%s returned without running the solver' % what)
    # the input the solver has seen
    if s.seen is None:
        raise Violation('%s: the solver found no input file' % what)
    shape, base, entries = parse_input(s.seen)
    want = {tuple(int(v) + base for v in e) for e in np.argwhere(pos)}
    if shape != c['shape']:
        raise Violation('%s: the input file has shape %s instead of %s' % (what, shape, c['shape']))
    if set(entries) != want or len(entries) != len(want):
        raise Violation('%s: the input file holds %d entries, %d of them wrong, %d are missing' % (
            what, len(entries), len(set(entries) - want), len(want - set(entries))))
    hyper = [str(h) for h in (c['hyper'] or [3, .3, 25])]
    tail = [str(d) for d in c['shape']] + [str(c['L'])] + hyper
    if s.cmd[-len(tail):] != tail:
        raise Violation('%s: the solver was called with %s' % (what, s.cmd))
    F = dense(c)
    got = res[1] if c['out'] else res
    if len(got) != 3:
        raise Violation('%s returned %d factors' % (what, len(got)))
    for k in range(3):
        g = np.asarray(got[k])
        if g.shape != F[k].shape or not np.array_equal(g == 1, F[k]):
            raise Violation('%s: factor %d is not the one the solver produced for this call' % (what, k))
    if c['out']:
        P = np.einsum('nl,dl,ml->ndm', *[x.astype(int) for x in F]) > 0
        R = np.asarray(res[0])
        if R.shape != P.shape or not np.array_equal(R == 1, P):
            raise Violation('%s: the reconstruction is not the Boolean product of the factors' % what)
    st.add('successes')
    W.log(*F)
    st.world(W)
