"""
Seams of the simulator.

Everything nondeterministic the code under test can touch is routed through the
current World: uniform draws and every other numpy.random function, the order of
parallel rows (prange), freshly allocated memory, failing allocations, the
terminal, interrupts, worker processes and sub-processes.  The seams are
installed by monkey-patching numpy / numba *before* lom is imported, so that
nothing in /repo has to be changed; they are inert when no World is active.

import order matters: this module must be imported before lom.
"""
import os
import sys
import io
import hashlib
import struct
import threading
import errno

os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')

REPO = os.environ.get('LOM_REPO', '/repo')
LOMDIR = os.path.join(REPO, 'lom') + os.sep

import numpy as np                                                # noqa: E402
import numpy.random                                               # noqa: E402

if 'lom' in sys.modules:
    raise RuntimeError('seams must be imported before lom')

_real = {}          # originals of everything that is patched
CUR = None          # the active World


# --------------------------------------------------------------------------
# faults raised by the simulator
# --------------------------------------------------------------------------
class SimInterrupt(KeyboardInterrupt):
    """user interrupt (Ctrl-C) injected by the simulator"""


class SimMemoryError(MemoryError):
    """failing allocation injected by the simulator"""


class SimOSError(OSError):
    """failing write injected by the simulator"""


class NoProgress(BaseException):
    """the step budget of a run is exhausted"""


FAULTS = (SimInterrupt, SimMemoryError, SimOSError)

EXTREME_U = (0.0, 1.0 - 2.0 ** -53, 2.0 ** -53, 1e-12, 0.5)


class World:
    """
    One simulated execution. Parameters (all JSON-able, all derived from a seed):

    seed        seed of every draw
    u           None: stream of uniforms, float: every uniform draw is this value
    p_extreme   probability that a scalar uniform is replaced by an extreme value
    keyed       draws are a pure function of (seed, key of thread/row, counter)
    poison      content of uninitialised memory: None, 'zero', 'big', 'rand', 'nan'
    fault       None or dict(kind=..., at=...) with kind in
                draw      KeyboardInterrupt at the at-th draw
                line      KeyboardInterrupt at the at-th executed lom source line
                alloc     MemoryError at the at-th allocation made by lom
                stdout    OSError at the at-th write to the terminal
    budget      number of events (draws, writes, allocations, updates) allowed
    """

    def __init__(self, seed=0, u=None, p_extreme=0.0, keyed=False, poison=None,
                 fault=None, budget=2000000, line_budget=None):
        self.seed = int(seed)
        self.rs = np.random.RandomState(self.seed % (2 ** 32))
        self.adv = np.random.RandomState((self.seed + 77) % (2 ** 32))
        self.u = u
        self.p_extreme = p_extreme
        self.keyed = keyed
        self.poison = poison
        self.fault = dict(fault) if fault else None
        self.fired = []
        self.budget = budget
        self.line_budget = line_budget
        self.events = 0
        self.count = dict(draw=0, alloc=0, write=0, line=0, update=0, empty=0)
        self._log = hashlib.blake2b(digest_size=16)
        self.text = []
        self.keep_text = False
        self.hooks_before = []
        self.hooks_after = []
        self.key_stack = {}           # thread id -> current key
        self.key_count = {}           # key -> number of draws
        self.thread_rs = {}           # thread id -> key used when keyed
        self.prange_perm = None       # random.Random deciding row order
        self.on_prange = None
        self.reseeds = []
        self.line_hook = None
        self.task = None              # simulated worker process in control
        self.pool_plan = None
        self.file_lines = 0
        self.script = None            # uniform draws decided one by one: function of their number
        self.log_lock = threading.RLock()

    # ---- log -------------------------------------------------------------
    def log(self, *items):
        for x in items:
            if isinstance(x, np.ndarray):
                self._log.update(str((x.dtype, x.shape)).encode())
                self._log.update(np.ascontiguousarray(x).tobytes())
            else:
                self._log.update(repr(x).encode())

    def digest(self):
        return self._log.hexdigest()

    # ---- events ----------------------------------------------------------
    def tick(self, kind):
        self.count[kind] = c = self.count[kind] + 1
        self.events += 1
        if self.events > self.budget:
            raise NoProgress('more than %d events' % self.budget)
        f = self.fault
        if f is not None:
            fk = f['kind']
            if fk == kind and c == f['at']:
                self.fault = None
                self.fire(fk, c)

    def fire(self, kind, c):
        self.fired.append((kind, c))
        self.log('fault', kind, c)
        if kind in ('draw', 'line', 'update'):
            raise SimInterrupt('injected interrupt at %s %d' % (kind, c))
        if kind == 'alloc':
            raise SimMemoryError('injected failure of allocation %d' % c)
        if kind == 'write':
            raise SimOSError(errno.EIO, 'injected failure of write %d' % c)
        raise ValueError(kind)

    # ---- uniform draws ----------------------------------------------------
    def _keyed(self):
        tid = threading.get_ident()
        key = self.key_stack.get(tid, ())
        n = self.key_count.get(key, 0)
        self.key_count[key] = n + 1
        h = hashlib.blake2b(repr((self.seed, key, n)).encode(),
                            digest_size=8).digest()
        return (struct.unpack('<Q', h)[0] >> 11) * 2.0 ** -53

    def uniform1(self):
        u = self._uniform1()
        if self.task is not None and len(self.task.draws) < 12:
            self.task.draws.append(u)
        return u

    def _uniform1(self):
        self.tick('draw')
        if self.script is not None:
            return self.script()
        if self.u is not None:
            return self.u
        if self.keyed:
            u = self._keyed()
            if self.p_extreme and (u * 1e6) % 1.0 < self.p_extreme:
                return EXTREME_U[int(u * 1e9) % len(EXTREME_U)]
            return u
        u = self.rs.random_sample()
        if self.p_extreme and self.adv.random_sample() < self.p_extreme:
            return EXTREME_U[self.adv.randint(len(EXTREME_U))]
        return u

    def uniform(self, size=None):
        if size is None or size == ():
            return self.uniform1()
        out = _real['empty'](size, dtype=np.float64)
        flat = out.reshape(-1)
        for i in range(flat.shape[0]):
            flat[i] = self.uniform1()
        return out

    def generator(self):
        """RandomState used for everything that is not a plain uniform."""
        if self.keyed:
            u = self._keyed()
            return _real_RandomState(int(u * 2 ** 32) % (2 ** 32))
        return self.rs

    # ---- activation -------------------------------------------------------
    def __enter__(self):
        global CUR
        if CUR is not None:
            raise RuntimeError('nested worlds')
        self._stdout = sys.stdout
        self._stdin = sys.stdin
        sys.stdout = SimStdout(self)
        sys.stdin = io.StringIO('')
        self._old_trace = sys.gettrace()
        self._trace_on = False
        CUR = self
        f = self.fault
        if (f is not None and f['kind'] == 'line') or \
                self.line_budget is not None or self.line_hook is not None:
            self._trace_on = True
            sys.settrace(self._trace)
        return self

    def __exit__(self, *exc):
        global CUR
        if self._trace_on:
            sys.settrace(self._old_trace)
        CUR = None
        sys.stdout = self._stdout
        sys.stdin = self._stdin
        return False

    # ---- line events --------------------------------------------------------
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LOMDIR):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            if CUR is self:
                self.count['line'] = c = self.count['line'] + 1
                if self.line_budget is not None and c > self.line_budget:
                    raise NoProgress('more than %d lines' % self.line_budget)
                if self.line_hook is not None:
                    self.line_hook(frame)
                f = self.fault
                if f is not None and f['kind'] == 'line':
                    part = f.get('file')
                    if part is not None:
                        if part not in frame.f_code.co_filename:
                            return self._local
                        self.file_lines = c = self.file_lines + 1
                    if c == f['at']:
                        self.fault = None
                        self.fire('line', c)
        return self._local


class SimStdout(io.TextIOBase):
    """terminal owned by the simulator"""

    def __init__(self, world):
        self.world = world

    def writable(self):
        return True

    def write(self, s):
        self.world.tick('write')
        if self.world.keep_text:
            self.world.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# --------------------------------------------------------------------------
# numpy.random
# --------------------------------------------------------------------------
_real_RandomState = np.random.RandomState


def _dims(args):
    return tuple(int(a) for a in args)


def _p_rand(*dims):
    W = CUR
    if W is None:
        return _real['random.rand'](*dims)
    return W.uniform(_dims(dims) if dims else None)


def _p_random_sample(size=None):
    W = CUR
    if W is None:
        return _real['random.random_sample'](size)
    if size is not None and np.isscalar(size):
        size = (int(size),)
    return W.uniform(size if size is None else tuple(size))


def _p_uniform(low=0.0, high=1.0, size=None):
    W = CUR
    if W is None:
        return _real['random.uniform'](low, high, size)
    if size is None and np.ndim(low) + np.ndim(high) > 0:
        size = np.broadcast(low, high).shape
    return low + (high - low) * _p_random_sample(size)


def _p_seed(seed=None):
    W = CUR
    if W is None:
        return _real['random.seed'](seed)
    W.reseeds.append(seed)
    W.log('seed', seed)
    if seed is None:
        seed = int(W.adv.randint(2 ** 31))
    W.rs.seed(seed)


def _p_choice(a, size=None, replace=True, p=None):
    W = CUR
    if W is None:
        return _real['random.choice'](a, size, replace, p)
    if W.script is not None and size is None and p is not None:
        # one uniform draw decides
        cdf = np.cumsum(np.asarray(p, dtype=float))
        W.generator().choice(a, size, replace, p)       # validates the arguments
        c = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        k = int(np.searchsorted(cdf / cdf[-1], W.uniform1(), side='right'))
        return c[min(k, len(c) - 1)]
    W.tick('draw')
    if size is None and p is not None and W.p_extreme and \
            W.adv.random_sample() < W.p_extreme:
        # any outcome of positive probability is possible; validate arguments
        W.generator().choice(a, size, replace, p)
        cand = [x for x, q in zip(a, p) if q > 0]
        return cand[W.adv.randint(len(cand))]
    return W.generator().choice(a, size, replace, p)


def _p_permutation(x):
    W = CUR
    if W is None:
        return _real['random.permutation'](x)
    W.tick('draw')
    return W.generator().permutation(x)


def _p_shuffle(x):
    W = CUR
    if W is None:
        return _real['random.shuffle'](x)
    W.tick('draw')
    return W.generator().shuffle(x)


def _make_generic(name):
    real = _real['random.' + name]

    def generic(*a, **k):
        W = CUR
        if W is None:
            return real(*a, **k)
        W.tick('draw')
        return getattr(W.generator(), name)(*a, **k)
    generic.__name__ = name
    return generic


def _patch_random():
    special = dict(rand=_p_rand, random_sample=_p_random_sample,
                   random=_p_random_sample, ranf=_p_random_sample,
                   sample=_p_random_sample, uniform=_p_uniform, seed=_p_seed,
                   choice=_p_choice, permutation=_p_permutation,
                   shuffle=_p_shuffle)
    generic = ['randint', 'randn', 'binomial', 'normal', 'standard_normal',
               'beta', 'gamma', 'poisson', 'exponential', 'bytes',
               'multinomial', 'geometric', 'dirichlet', 'standard_exponential',
               'random_integers', 'laplace', 'logistic']
    for n in special:
        _real['random.' + n] = getattr(np.random, n)
    for n in generic:
        if hasattr(np.random, n):
            _real['random.' + n] = getattr(np.random, n)
    for n, f in special.items():
        setattr(np.random, n, f)
    for n in generic:
        if 'random.' + n in _real:
            setattr(np.random, n, _make_generic(n))


# --------------------------------------------------------------------------
# memory
# --------------------------------------------------------------------------
def _from_lom(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(LOMDIR)


def _poison(W, arr):
    if W.poison is None or arr.size == 0 or arr.dtype == object:
        return arr
    W.count['empty'] += 1
    kind = W.poison
    if kind == 'zero':
        arr[...] = 0
    elif kind == 'big':
        arr[...] = 77 if arr.dtype.kind in 'iu' else 1e6
    elif kind == 'nan':
        arr[...] = 99 if arr.dtype.kind in 'iu' else np.nan
    elif kind == 'rand':
        if arr.dtype.kind in 'iu':
            arr[...] = W.adv.randint(-100, 100, size=arr.shape)
        else:
            arr[...] = W.adv.random_sample(arr.shape) * 20 - 10
    elif kind == 'last':         # looks like plausible data
        if arr.dtype.kind in 'iu':
            arr[...] = 1
        else:
            arr[...] = 0.3
    return arr


def _make_alloc(name):
    real = getattr(np, name)
    _real[name] = real

    def alloc(*a, **k):
        W = CUR
        if W is None or not _from_lom():
            return real(*a, **k)
        W.tick('alloc')
        out = real(*a, **k)
        if name in ('empty', 'empty_like'):
            out = _poison(W, out)
        return out
    alloc.__name__ = name
    return alloc


ALLOCATORS = ['empty', 'empty_like', 'zeros', 'zeros_like', 'ones', 'full',
              'array', 'delete', 'hstack', 'vstack', 'concatenate', 'copy',
              'append', 'insert', 'pad', 'stack', 'ones_like', 'full_like',
              'asarray', 'ascontiguousarray', 'arange', 'tile', 'repeat',
              'take', 'compress', 'nonzero', 'where', 'mean', 'dot', 'argsort']


def _patch_alloc():
    for n in ALLOCATORS:
        setattr(np, n, _make_alloc(n))


# --------------------------------------------------------------------------
# numba: compiler off, parallel loops under our control
# --------------------------------------------------------------------------
PARALLEL_CODE = set()


def _patch_numba():
    import numba
    assert numba.config.DISABLE_JIT, 'NUMBA_DISABLE_JIT must be set'
    _real['jit'] = numba.jit
    real_jit = numba.jit

    def jit(*a, **k):
        par = bool(k.get('parallel', False))
        dec = real_jit(*a, **k)
        if a and callable(a[0]) and not isinstance(a[0], str):
            return dec                      # used as plain decorator
        if not par:
            return dec

        def wrap(fn):
            from . import threads
            PARALLEL_CODE.add(fn.__code__)
            return dec(threads.parallel_function(fn))
        return wrap

    class prange(object):
        def __new__(cls, *args):
            W = CUR
            r = range(*args)
            if W is None:
                return r
            fr = sys._getframe(1)
            if fr.f_code in PARALLEL_CODE and W.on_prange is not None:
                return W.on_prange(r, fr)
            return r

    numba.jit = jit
    numba.njit = lambda *a, **k: jit(*a, **k)
    numba.prange = prange
    _real['prange'] = prange


def numba_prange():
    return _real['prange']


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _patch_random()
    _patch_alloc()
    _patch_numba()
    from . import pool
    pool.install()
    import scipy.special                                          # noqa: F401
    import sklearn                                                # noqa: F401
    sys.path.insert(0, REPO)
    import lom                                                    # noqa: F401
    if not os.path.realpath(lom.__file__).startswith(
            os.path.realpath(LOMDIR)):
        raise RuntimeError('lom imported from %s' % lom.__file__)
    import lom.machine
    import lom.experiments                                        # noqa: F401
    _observe(lom.machine.MachineMatrix)
    _observe(lom.machine.MachineParameter)


# --------------------------------------------------------------------------
# observation of updates: every call of a matrix' / dispersion's sampling_fct
# --------------------------------------------------------------------------
def _observe(cls):
    def get(self):
        raw = self.__dict__.get('_sim_raw_sampling_fct')
        if raw is None:
            return None
        w = self.__dict__.get('_sim_wrapped')
        if w is not None and w.raw is raw:
            return w

        def observed(obj, *a, **k):
            W = CUR
            if W is None:
                return raw(obj, *a, **k)
            for h in W.hooks_before:
                h(obj)
            W.tick('update')
            r = raw(obj, *a, **k)
            for h in W.hooks_after:
                h(obj)
            return r
        observed.raw = raw
        self.__dict__['_sim_wrapped'] = observed
        return observed

    def set(self, fct):
        self.__dict__['_sim_raw_sampling_fct'] = getattr(fct, 'raw', fct)

    cls.sampling_fct = property(get, set)
