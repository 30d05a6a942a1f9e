"""
Simulated hosts: interpreters started with a given hash seed that fork one fresh
process per program. What the host looks like to the program (operating system
entropy, clock, memory contents, terminal, garbage collector, what ran before) is
decided by the variant that comes with the request.

  python -m sim.nodes            (internal: serve requests on stdin)
"""
import gc
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import time


# --------------------------------------------------------------------------
# the host
# --------------------------------------------------------------------------
class Clock:
    """clock that starts anywhere, runs at any speed and jumps"""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.now = self.rng.choice([0.0, 1e9, 1.7e9, 4e9]) + self.rng.random() * 1e6
        self.speed = self.rng.choice([0.0, 1e-6, .01, 100.0])
        self.jumps = self.rng.random() < .3
        self.reads = 0

    def __call__(self):
        self.reads += 1
        self.now += self.speed * self.rng.random()
        if self.jumps and self.rng.random() < .1:
            self.now += self.rng.choice([-3600.0, 86400.0, -1.0])
        return self.now

    def sleep(self, s):
        self.now += s


def entropy(seed):
    """operating system entropy"""
    import numpy as np
    rng = random.Random('entropy %s' % seed)

    def randbits(n):
        return rng.getrandbits(n)

    def urandom(n):
        return bytes(rng.getrandbits(8) for _ in range(n))
    import secrets
    secrets.randbits = randbits
    secrets.token_bytes = lambda n=32: urandom(n)
    os.urandom = urandom
    random._urandom = urandom
    for mod in (getattr(np.random, 'bit_generator', None), getattr(np.random, 'mtrand', None)):
        if mod is not None and hasattr(mod, 'randbits'):
            mod.randbits = randbits
    random.seed(rng.getrandbits(64))


def litter(seed):
    """memory that was used before"""
    import numpy as np
    rng = random.Random('litter %s' % seed)
    keep = []
    for _ in range(200):
        n = rng.choice([1, 2, 4, 8, 16, 32, 64, 100, 250, 1000])
        dt = rng.choice(['int8', 'float64', 'int64', 'float32', 'bool'])
        a = np.full(n, rng.choice([-1, 1, 0, 77, .25]), dtype=dt)
        if rng.random() < .3:
            keep.append(a)
        del a
    return keep


class NativeWorld:
    """built lazily: a World whose draws are those of numpy's global generator"""

    def __new__(cls, variant, budget):
        import numpy as np
        from . import seams

        class W(seams.World):
            def uniform(self, size=None):
                self.tick('draw')
                if size is None or size == ():
                    return self.rs.random_sample()
                return self.rs.random_sample(size)
        w = W(seed=variant['seed'], poison=variant.get('poison'), budget=budget,
              fault=variant.get('fault'))
        w.rs = np.random.mtrand._rand
        return w


def serve_one(req):
    from . import seams
    import numpy as np
    v = req['variant']
    entropy(v['seed'])
    clock = Clock(v['seed'])
    for n in ('time', 'perf_counter', 'monotonic', 'process_time'):
        setattr(time, n, clock)
    for n in ('time_ns', 'perf_counter_ns', 'monotonic_ns'):
        setattr(time, n, lambda: int(clock() * 1e9))
    time.sleep = clock.sleep
    if v.get('columns'):
        os.environ['COLUMNS'] = str(v['columns'])
    os.environ['HOSTNAME'] = 'host%d' % (v['seed'] % 97)
    keep = litter(v['seed']) if v.get('litter') else None
    if v.get('gc') == 'off':
        gc.disable()
    elif v.get('gc') == 'often':
        gc.set_threshold(1, 1, 1)
    np.seterr(all='ignore')
    np.random.mtrand._rand.seed(v['seed'] % (2 ** 32))
    import importlib
    prog = importlib.import_module('sim.props.' + req['module']).program
    count = {}

    def once(p, variant, budget=1500000):
        W = NativeWorld(variant, budget)
        try:
            with W:
                sys.stdout.isatty = lambda: bool(v.get('tty'))
                r = prog(p)
        except seams.NoProgress as e:
            r = dict(error='no progress: %s' % e)
        except seams.FAULTS as e:
            r = dict(error='fault: %s' % e)
        except Exception as e:
            from .common import lom_frames, describe
            if W.fired:
                r = dict(error='fault')
            else:
                r = dict(error=('%s' if lom_frames(e) else 'harness: %s') % describe(e))
        for k, n in W.count.items():
            count[k] = count.get(k, 0) + n
        count['faults'] = count.get('faults', 0) + len(W.fired)
        return r
    for b in req.get('before', []):
        once(b['program'], dict(v, fault=b.get('fault')))
    res = once(req['program'], dict(v, fault=None))
    out = {}
    for k, x in res.items():
        if isinstance(x, np.ndarray):
            h = hashlib.blake2b(str((x.dtype, x.shape)).encode() +
                                np.ascontiguousarray(x).tobytes(), digest_size=8).hexdigest()
            out[k] = h
        else:
            out[k] = repr(x)
    if 'error' in res:
        out = dict(error=res['error'])
    return dict(out=out, count=count, clock=clock.reads)


def serve():
    from . import seams
    seams.install()
    inp, outp = sys.stdin, os.fdopen(os.dup(1), 'w')
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    outp.write('ready\n')
    outp.flush()
    for line in inp:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(80)
                try:
                    a = serve_one(req)
                except BaseException as e:
                    import traceback
                    a = dict(harness=traceback.format_exc()[-2000:] or str(e))
                with os.fdopen(w, 'w') as f:
                    f.write(json.dumps(a))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            txt = f.read()
        os.waitpid(pid, 0)
        outp.write((txt or json.dumps(dict(out=dict(error='the program was killed')))) + '\n')
        outp.flush()


# --------------------------------------------------------------------------
# client
# --------------------------------------------------------------------------
HOSTS = {}


def host(hashseed):
    p = HOSTS.get(hashseed)
    if p is not None and p.poll() is None:
        return p
    from . import runner
    if len(HOSTS) >= 4:
        stop(next(iter(HOSTS)))
    env = runner.child_env({'PYTHONHASHSEED': str(hashseed)})
    p = subprocess.Popen([sys.executable, '-B', '-m', 'sim.nodes'], cwd=runner.ROOT, env=env,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         text=True)
    assert p.stdout.readline().strip() == 'ready', 'host does not start'
    HOSTS[hashseed] = p
    return p


def stop(hashseed):
    p = HOSTS.pop(hashseed, None)
    if p is not None:
        p.kill()
        p.wait()


def run_on(hashseed, req):
    p = host(hashseed)
    try:
        p.stdin.write(json.dumps(req) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError('host died')
        a = json.loads(line)
    except BaseException:
        stop(hashseed)
        raise
    if 'harness' in a:
        raise RuntimeError(a['harness'])
    return a


def stop_all():
    for h in list(HOSTS):
        stop(h)


import atexit                                                     # noqa: E402
atexit.register(stop_all)

if __name__ == '__main__':
    serve()
