"""
Runner: seeded search over scenarios of one property.

  runner.py check  <ID> [--tier T] [--seed N] [--workers K] [--runs N]
  runner.py worker <ID> ...           (internal)
  runner.py exec   <file>             run one scenario file, print the verdict
  runner.py digest <ID> --from a --to b    event-log digests (self test)
  runner.py selftest <ID|all>              determinism of the simulator

One run = one scenario, a JSON object that is a pure function of
(seed, property, tier, index). Executing a scenario is a pure function of the
scenario and the code in /repo.
"""
import sys
import os
import json
import time
import random
import hashlib
import signal
import subprocess
import importlib
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get('LOM_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable

RUN_WALL = 90          # seconds before a run is suspected to hang
LINE_BUDGET = 30000000  # deterministic verdict on a suspected hang
CHUNK = 8


def child_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR', 'LOM_REPO',
                    'VERIF_SEED', 'VERIF_TIER', 'LOM_PYTHON')}
    env.update(NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1',
               MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
               PYTHONPATH=ROOT, PYTHONWARNINGS='ignore')
    if extra:
        env.update(extra)
    return env


# --------------------------------------------------------------------------
# in the worker: execution of single scenarios
# --------------------------------------------------------------------------
class Stats:
    """what one scenario did, merged over all runs"""

    def __init__(self):
        self.c = Counter()
        self.digests = []

    def add(self, key, n=1):
        self.c[key] += n

    def state(self, *items):
        """one more state / schedule / history reached"""
        h = hashlib.blake2b(repr(items).encode(), digest_size=8).hexdigest()
        self.digests.append(h)

    def world(self, W):
        for k, v in W.count.items():
            if v:
                self.c['events.' + k] += v
        for kind, _ in W.fired:
            self.c['fault.' + kind] += 1
        self.digests.append(W.digest()[:16])


class WallTimeout(BaseException):
    pass


def load(pid):
    from sim import seams
    seams.install()
    return importlib.import_module('sim.props.' + pid.lower())


def scenario(mod, seed, tier, i):
    rng = random.Random('%s/%s/%s/%s' % (mod.ID, seed, tier, i))
    sc = mod.gen(rng, tier, i)
    return json.loads(json.dumps(sc))


_line_budget = None


def execute(mod, sc, want_digest=False):
    """returns (violation or None, stats, error or None)"""
    from sim.common import Violation
    from sim import seams
    import numpy as np
    st = Stats()
    viol = err = None
    old_err = np.seterr(all='ignore')
    seams._real['random.seed'](12345)
    random.seed(12345)
    try:
        mod.run(sc, st)
    except Violation as e:
        viol = str(e)
    except seams.NoProgress as e:
        viol = 'no progress: %s' % e
    except (WallTimeout, KeyboardInterrupt):
        raise
    except BaseException as e:
        err = ''.join(traceback.format_exception(e))[-3000:]
    finally:
        np.seterr(**old_err)
        if seams.CUR is not None:
            seams.CUR.__exit__()
    return viol, st, err


def execute_guarded(mod, sc):
    """with a wall watchdog whose verdict is made deterministic by a line budget"""
    from sim import seams

    def on_alarm(sig, frm):
        raise WallTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_WALL, 1.0)
    try:
        return execute(mod, sc)
    except WallTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if seams.CUR is not None:
            seams.CUR.__exit__()
    # deterministic re-run: count executed source lines instead of seconds
    return execute_lines(mod, sc)


def execute_lines(mod, sc):
    from sim import seams
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] > LINE_BUDGET:
                raise seams.NoProgress('more than %d source lines executed'
                                       % LINE_BUDGET)
        return local

    def tr(frame, event, arg):
        if frame.f_code.co_filename.startswith(seams.LOMDIR):
            return local
        return None

    sys.settrace(tr)
    try:
        return execute(mod, sc)
    finally:
        sys.settrace(None)


def worker_main(pid, seed, tier, w, nw, runs, deadline):
    mod = load(pid)
    out = sys.stdout
    total = Stats()
    done = 0
    distinct = set()
    samples = []
    t0 = time.time()
    slowest = (0, None)
    for i in range(w, runs, nw):
        if time.time() > deadline:
            break
        sc = scenario(mod, seed, tier, i)
        t1 = time.time()
        viol, st, err = execute_guarded(mod, sc)
        dt = time.time() - t1
        if dt > slowest[0]:
            slowest = (dt, i)
        done += 1
        total.c.update(st.c)
        distinct.update(st.digests)
        if len(samples) < 2:
            samples.append(dict(index=i, scenario=sc))
        if viol is not None:
            out.write(json.dumps(dict(t='viol', i=i, msg=viol, sc=sc)) + '\n')
            out.flush()
            break
        if err is not None:
            out.write(json.dumps(dict(t='err', i=i, msg=err, sc=sc)) + '\n')
            out.flush()
            break
    out.write(json.dumps(dict(
        t='done', runs=done, stats=dict(total.c), distinct=sorted(distinct),
        samples=samples, wall=time.time() - t0, slowest=slowest)) + '\n')
    out.flush()


# --------------------------------------------------------------------------
# in the parent
# --------------------------------------------------------------------------
def spawn(args, extra=None, **k):
    return subprocess.Popen([PY, '-B', '-m', 'sim.runner'] + [str(a) for a in args],
                            cwd=ROOT, env=child_env(extra),
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            text=True, **k)


def run_exec(sc_obj, timeout=400, extra=None):
    """run one scenario object in a fresh process -> dict(viol, err, digest)"""
    import tempfile
    fd, path = tempfile.mkstemp(suffix='.json', prefix='lomsim')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(sc_obj, f)
        p = spawn(['exec', path], extra)
        try:
            so, se = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return dict(viol=None, err='timeout')
        for line in so.splitlines():
            if line.startswith('{'):
                return json.loads(line)
        return dict(viol=None, err='no verdict: ' + se[-2000:])
    finally:
        os.unlink(path)


def viol_class(msg):
    """coarse class of a violation for minimisation: text without numbers"""
    import re
    return re.sub(r'[-+0-9.\[\], e]+', '#', msg.split(':')[0])[:60]


def shrink(pid, sc, msg, budget_s=60):
    """delegated to a child process that keeps lom loaded"""
    p = spawn(['shrink', pid], stdin=subprocess.PIPE)
    try:
        so, se = p.communicate(json.dumps(dict(sc=sc, msg=msg, budget=budget_s)),
                               timeout=budget_s * 3 + 120)
        for line in so.splitlines():
            if line.startswith('{'):
                d = json.loads(line)
                return d['sc'], d['msg'], d['steps']
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
    return sc, msg, 0


def shrink_main(pid):
    mod = load(pid)
    d = json.loads(sys.stdin.read())
    sc, msg = d['sc'], d['msg']
    cls = viol_class(msg)
    end = time.time() + d['budget']
    steps = 0
    progress = True
    cands = getattr(mod, 'shrink', None) or generic_shrink
    while progress and time.time() < end:
        progress = False
        for cand in cands(sc):
            if time.time() > end:
                break
            steps += 1
            try:
                cand = json.loads(json.dumps(cand))
                v, _, err = execute_guarded(mod, cand)
            except Exception:
                continue
            if v is not None and err is None and viol_class(v) == cls:
                sc, msg = cand, v
                progress = True
                break
    sys.stdout.write(json.dumps(dict(sc=sc, msg=msg, steps=steps)) + '\n')


def generic_shrink(sc):
    """drop list entries under 'ops' / 'faults', shrink integers under 'knobs'"""
    for key in ('ops', 'faults'):
        if isinstance(sc.get(key), list):
            n = len(sc[key])
            step = max(1, n // 2)
            while step >= 1:
                for a in range(0, n, step):
                    c = dict(sc)
                    c[key] = sc[key][:a] + sc[key][a + step:]
                    if len(c[key]) < n:
                        yield c
                step //= 2
    for key in ('no_samples', 'burn_in_min', 'burn_in_max', 'convergence_window'):
        v = sc.get(key)
        if isinstance(v, int):
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v and not (key == 'convergence_window' and nv < 2):
                    yield dict(sc, **{key: nv})
    for key, d in (('p_extreme', 0.0), ('poison', None), ('fault', None),
                   ('perm', None)):
        if sc.get(key) not in (d, None):
            yield dict(sc, **{key: d})


def check_main(pid, tier, seed, workers, runs, wall):
    t0 = time.time()
    mod_info = json.loads(subprocess.run(
        [PY, '-B', '-m', 'sim.runner', 'info', pid], cwd=ROOT, env=child_env(),
        capture_output=True, text=True, check=True).stdout.splitlines()[-1])
    if runs is None:
        runs = mod_info['runs'][tier]
    if wall is None:
        wall = {'quick': 240, 'thorough': 3000}[tier]
    deadline = time.time() + wall
    procs = [spawn(['worker', pid, '--seed', seed, '--tier', tier, '--part', w,
                    '--of', workers, '--runs', runs, '--deadline', deadline])
             for w in range(workers)]
    viols, errs, dones = [], [], []
    import threading
    outs = [None] * workers

    def collect(k, p):
        outs[k] = p.communicate()

    ths = [threading.Thread(target=collect, args=(k, p))
           for k, p in enumerate(procs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for k, (so, se) in enumerate(outs):
        got = False
        for line in so.splitlines():
            if not line.startswith('{'):
                continue
            d = json.loads(line)
            if d['t'] == 'viol':
                viols.append(d)
            elif d['t'] == 'err':
                errs.append(d)
            elif d['t'] == 'done':
                got = True
                dones.append(d)
        if not got:
            errs.append(dict(i=-1, msg='worker %d died (rc %s): %s' % (
                k, procs[k].returncode, se[-2000:]), sc=None))
    stats = Counter()
    distinct = set()
    samples = []
    n = 0
    for d in dones:
        stats.update(d['stats'])
        distinct.update(d['distinct'])
        samples += d['samples']
        n += d['runs']
    search_wall = max([d['wall'] for d in dones] or [0.001])

    known = known_findings(pid)
    reported = []
    for v in sorted(viols, key=lambda d: d['i']):
        k = match_known(known, v['msg'])
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
            continue
        reported.append(v)

    code = 0
    if reported:
        v = reported[0]
        sc, msg, steps = shrink(pid, v['sc'], v['msg'],
                                30 if tier == 'quick' else 120)
        rep = dict(property=pid, seed=seed, tier=tier, index=v['i'],
                   violation=msg, shrink_steps=steps, original=v['sc'],
                   scenario=sc)
        path = write_replay(rep)
        r1 = run_exec(rep)
        if r1.get('viol') is None:        # minimised one must reproduce
            rep['scenario'] = v['sc']
            rep['violation'] = msg = v['msg']
            path = write_replay(rep)
            r1 = run_exec(rep)
        r2 = run_exec(rep, extra={'PYTHONHASHSEED': '7'})
        same = (r1.get('viol') == r2.get('viol') and r1.get('viol') is not None)
        print('seed=%s index=%s: %s' % (seed, v['i'], msg))
        if not same:
            print('warning: replay not exact: %r / %r' % (
                r1.get('viol') or r1.get('err'), r2.get('viol') or r2.get('err')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    elif errs:
        print('harness error: %s' % errs[0]['msg'])
        code = 2
    elif n == 0:
        print('no run completed')
        code = 2

    wall_s = time.time() - t0
    write_evidence(pid, tier, seed, mod_info, runs, n, stats, distinct, samples,
                   search_wall, wall_s, len(reported), workers)
    print('%s %s: %d runs, %d distinct histories, %.1fs, %s' % (
        pid, tier, n, len(distinct), wall_s,
        'ok' if code == 0 else ('VIOLATED' if code == 1 else 'ERROR')))
    return code


def write_replay(rep):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(rep, indent=1, sort_keys=True)
    name = '%s-%s.json' % (rep['property'],
                           hashlib.blake2b(blob.encode(), digest_size=6).hexdigest())
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(blob)
    return os.path.relpath(path, ROOT)


def known_findings(pid):
    """lines 'finding: property=<id> match=<substring> :: <description>'"""
    out = []
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % pid):
                body = line.split(' match=', 1)[1]
                m, desc = body.split(' :: ', 1)
                out.append((m.strip(), desc.strip()))
    return out


def match_known(known, msg):
    for m, desc in known:
        if m and m in msg:
            return desc
    return None


def trim(x, n=1500):
    s = json.dumps(x)
    if len(s) <= n:
        return x
    return s[:n] + '...'


def write_evidence(pid, tier, seed, info, planned, n, stats, distinct, samples,
                   search_wall, wall_s, nviol, workers):
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    events = {k[7:]: v for k, v in sorted(stats.items()) if k.startswith('events.')}
    rest = {k: v for k, v in sorted(stats.items())
            if not k.startswith(('fault.', 'events.'))}
    ev = dict(
        property=pid, tier=tier, seed=int(seed), level=info['level'],
        coverage=dict(
            evaluations=n,
            distinct_nontrivial=len(distinct),
            rule=info['rule'],
            samples=[trim(s) for s in samples[:3]],
            runs_planned=planned,
            runs_per_hour=int(3600 * n / max(search_wall, 1e-3)),
            simulated_sweeps=rest.get('sweeps', 0),
            simulated_events=events,
            faults_injected=faults,
            probes=rest,
            distinct_measure=info['measure'],
            real_components=info['real'],
            stubbed_components=info['stub'],
            workers=workers),
        assumptions=info['assumptions'],
        wall_s=round(wall_s, 2), violations=nviol)
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def info_main(pid):
    mod = load(pid)
    print(json.dumps(dict(
        runs=mod.RUNS, rule=mod.RULE, measure=mod.MEASURE,
        level=getattr(mod, 'LEVEL', 'exploration'),
        real=getattr(mod, 'REAL', ['lom.machine', 'lom.*_wrappers', 'lom._numba kernels',
                                   'lom.auxiliary_functions', 'numpy arithmetic']),
        stub=getattr(mod, 'STUB', ['numpy.random draws', 'terminal', 'numba compiler (off)',
                                   'prange scheduling', 'memory contents of np.empty']),
        assumptions=getattr(mod, 'ASSUMPTIONS', []))))


def exec_main(path):
    obj = json.load(open(path))
    mod = load(obj['property'])
    viol, st, err = execute_guarded(mod, obj['scenario'])
    h = hashlib.blake2b(repr((sorted(st.c.items()), st.digests, viol)).encode(),
                        digest_size=12).hexdigest()
    print(json.dumps(dict(viol=viol, err=err, digest=h)))


def digest_main(pid, seed, tier, i0, i1):
    mod = load(pid)
    for i in range(i0, i1):
        sc = scenario(mod, seed, tier, i)
        viol, st, err = execute_guarded(mod, sc)
        h = hashlib.blake2b(repr((sorted(st.c.items()), st.digests, viol,
                                  err is None)).encode(),
                            digest_size=12).hexdigest()
        print('D %d %s' % (i, h))


def props_available():
    d = os.path.join(HERE, 'props')
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.startswith('c') and f.endswith('.py'))


def setup_main():
    """nothing has to be built: check that the tools this needs are there"""
    p = subprocess.run([PY, '-B', '-c',
                        'import numpy, scipy, numba, sklearn, sys; print(sys.version.split()[0])'],
                       env=child_env(), capture_output=True, text=True)
    print('python', p.stdout.strip(), '-', len(props_available()), 'checks')
    return p.returncode


def selftest_main(what, n=6):
    """one seed is one execution: same event logs in differently set up processes"""
    bad = 0
    for pid in props_available():
        if what not in ('all', pid):
            continue
        outs = []
        for hs in ('0', '4242'):
            p = spawn(['digest', pid, '--seed', 5, '--tier', 'quick', '--from', 0,
                       '--to', n], {'PYTHONHASHSEED': hs})
            so, se = p.communicate()
            outs.append([l for l in so.splitlines() if l.startswith('D ')])
            if len(outs[-1]) != n:
                print(se[-1500:])
        # one by one, in fresh processes and the other way round
        last = []
        for i in (n - 1, 0):
            p = spawn(['digest', pid, '--seed', 5, '--tier', 'quick', '--from', i,
                       '--to', i + 1], {'PYTHONHASHSEED': '7'})
            last += [l for l in p.communicate()[0].splitlines() if l.startswith('D ')]
        ok = (len(outs[0]) == n and outs[0] == outs[1] and
              last == [outs[0][n - 1], outs[0][0]])
        print('%s %s' % (pid, 'deterministic' if ok else 'NOT DETERMINISTIC'))
        bad += not ok
    return 1 if bad else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--part', type=int)
    ap.add_argument('--of', type=int)
    ap.add_argument('--deadline', type=float)
    ap.add_argument('--from', type=int, dest='i0', default=0)
    ap.add_argument('--to', type=int, dest='i1', default=10)
    a = ap.parse_args(argv)
    if a.cmd == 'setup':
        return setup_main()
    if a.cmd == 'selftest':
        return selftest_main(a.what)
    if a.cmd == 'check':
        return check_main(a.what, a.tier, a.seed, a.workers, a.runs, a.wall)
    if a.cmd == 'worker':
        return worker_main(a.what, a.seed, a.tier, a.part, a.of, a.runs, a.deadline)
    if a.cmd == 'exec':
        return exec_main(a.what)
    if a.cmd == 'info':
        return info_main(a.what)
    if a.cmd == 'shrink':
        return shrink_main(a.what)
    if a.cmd == 'digest':
        return digest_main(a.what, a.seed, a.tier, a.i0, a.i1)
    raise SystemExit('unknown command')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]) or 0)
