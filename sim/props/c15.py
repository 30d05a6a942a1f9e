"""C15 machines are isolated from each other and from the caller's data"""
import random
import threading
import numpy as np
from .. import ref, threads
from ..common import (gen_layer, gen_run, rargs, build, set_layer, call, describe, lom_frames, Violation, same,
                      arr, pm0, lbda0, mask)
from .. import seams
from ..seams import World

ID = 'C15'
RUNS = dict(quick=550, thorough=55000)
RULE = ('one evaluation = 2-4 machines built from one shared data array, executed alone, one after another in '
        'random order, and concurrently in threads preempted between source lines or byte-codes (some threads '
        'interrupted on the way); everything a machine reports must equal what it reports alone and the shared '
        'array must stay as it was; non-trivial = distinct event log')
MEASURE = 'digest of all preemption points and resulting states'
ASSUMPTIONS = ['each machine meets the same draws (a function of machine and draw number) in all executions',
               'byte-codes are atomic']
STUB = ['thread scheduler (seeded baton)', 'uniform draws (keyed by machine)', 'terminal']


def gen_task(rng, shape, data):
    K = len(shape)
    x = rng.random()
    L = rng.randint(1, 3)
    if K == 2 and x < .12:
        model = 'MAX-AND'
    elif K == 2 and x < .24:
        model = 'OR-AND-IBP'
    elif K == 2 and x < .32:
        model = 'qL-AND'
    else:
        model = rng.choice(ref.ALL_NAMES)
    lay = gen_layer(rng, model, shape, L, lbda=lbda0(rng) if model != 'MAX-AND' else None)
    spec = dict(layers=[lay])
    if model in ref.FAMILIES and rng.random() < .3:
        up = gen_layer(rng, rng.choice(ref.FAMILIES), [shape[0], L], rng.randint(1, 2), lbda=lbda0(rng))
        up['child'] = [0, 0]
        spec['layers'].append(up)
    if model != 'OR-AND-IBP':
        for f in lay['factors']:
            if rng.random() < .4:
                f['prior'] = rng.choice([.1, .4, .9])
            if rng.random() < .2:
                f['fixed_entries'] = mask(rng, (len(f['val']), L), .4)
        if rng.random() < .3:
            lay['beta'] = rng.choice([[3, 2], [10, 1]])
        if rng.random() < .2:
            spec['anneal'] = True
    op = gen_run(rng, no_samples=rng.choice([1, 2, 3]), burn_in_min=rng.choice([0, 1, 2]),
                 burn_in_max=rng.choice([0, 2, 4]), convergence_window=rng.choice([2, 3]))
    return dict(spec=spec, op=op, tech=rng.sample(['point_estimate', 'factor_map', 'factor_mean', 'mc'], 2),
                again=rng.random() < .2, copy=rng.random() < .15)


def gen(rng, tier, i):
    K = rng.choice([2, 2, 2, 3])
    shape = [rng.randint(2, 4 if K == 2 else 3) for _ in range(K)]
    data = pm0(rng, shape, rng.choice([.3, .5]), rng.choice([0, 0, .2]))
    n = rng.choice([2, 2, 3, 4])
    sched = dict(seed=rng.randrange(10 ** 9), mode=rng.choice(['random', 'random', 'lockstep', 'stall', 'pct']),
                 quantum=rng.choice([1, 4, 20, 100, 500]), gran=rng.choice(['line', 'line', 'opcode']),
                 limit=10 ** 9)
    if rng.random() < .5:
        sched['only'] = ['machine.py', 'wrappers', 'auxiliary']
    faults = []
    if rng.random() < .3:
        faults.append([rng.randrange(n), rng.choice([20, 100, 400, 1500, 6000])])
    return dict(data=data, tasks=[gen_task(rng, shape, data) for _ in range(n)], sched=sched, faults=faults,
                order=rng.sample(range(n), n), poison=rng.choice([None, 'zero', 'big', 'nan', 'last']),
                readonly=rng.random() < .2, seed=rng.randrange(10 ** 6))


def shrink(sc):
    n = len(sc['tasks'])
    if n > 2:
        for k in range(n):
            yield dict(sc, tasks=sc['tasks'][:k] + sc['tasks'][k + 1:], faults=[],
                       order=list(range(n - 1)))
    if sc['faults']:
        yield dict(sc, faults=[])
    s = sc['sched']
    if s['limit'] > 4000:
        yield dict(sc, sched=dict(s, limit=4000))
    for v in (0, 1, s['limit'] // 8, s['limit'] // 2, s['limit'] - 1):
        if 0 <= v < s['limit']:
            yield dict(sc, sched=dict(s, limit=v))
    for k, t in enumerate(sc['tasks']):
        if len(t['spec']['layers']) > 1:
            t2 = dict(t, spec=dict(t['spec'], layers=t['spec']['layers'][:1]))
            yield dict(sc, tasks=sc['tasks'][:k] + [t2] + sc['tasks'][k + 1:])
        if t['op']['no_samples'] > 1:
            t2 = dict(t, op=dict(t['op'], no_samples=1))
            yield dict(sc, tasks=sc['tasks'][:k] + [t2] + sc['tasks'][k + 1:])


def scribble(m, X):
    """change every array of a machine that is its own"""
    for x in m.members:
        for a in (x.val, getattr(x, 'trace', None), x.fixed_entries):
            if isinstance(a, np.ndarray) and a.flags.writeable and not np.shares_memory(a, X):
                a[...] = 1 - a if a is x.fixed_entries else -a
    for p in m.lbdas:
        for a in (p.val, getattr(p, 'trace', None)):
            if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
                a[...] = .123


def state_of(m):
    out = {}
    for kind, ms in (('matrix', m.members), ('dispersion', m.lbdas)):
        for j, x in enumerate(ms):
            out['value of %s %d' % (kind, j)] = np.array(x.val)
            t = getattr(x, 'trace', None)
            if isinstance(t, np.ndarray):
                out['samples of %s %d' % (kind, j)] = np.array(t)
            if kind == 'matrix':
                out['marks of matrix %d' % j] = np.array(x.fixed_entries)
    return out


def task(sc, k, X, out):
    """build, run and read out machine k"""
    W = seams.CUR
    t = sc['tasks'][k]
    tid = threading.get_ident()
    old = W.key_stack.get(tid, ())
    W.key_stack[tid] = ('machine', k)
    try:
        spec = dict(t['spec'], data=dict(array=X))
        m, data, layers = build(spec)
        for r in range(2 if t['again'] else 1):
            m.infer(**rargs(t['op']))
        out['burn-in iterations'] = np.array(getattr(m, 'burn_in_iters', None))
        for j, x in enumerate(m.members + m.lbdas):
            nm = 'matrix %d' % j if j < len(m.members) else 'dispersion %d' % (j - len(m.members))
            out['value of ' + nm] = np.array(x.val)
            out['average of ' + nm] = np.array(x.mean())
            if not x.fixed:
                out['samples of ' + nm] = np.array(x.trace)
        for j, l in enumerate(layers):
            for te in t['tech']:
                out['output of layer %d by %s' % (j, te)] = np.array(l.output(te))
            out['inversion of layer %d' % j] = np.array([l.invert_data, l.invert_factors])
            out['size of layer %d' % j] = np.array(l.factors[0].val.shape)
        for j, x in enumerate(m.members):
            out['final value of matrix %d' % j] = np.array(x.val)
        return m
    finally:
        W.key_stack[tid] = old


def judge(res, solo, k, what):
    for key in solo:
        if key not in res or not same(res[key], solo[key]):
            raise Violation('machine %d %s: %s differs from the machine alone' % (k, what, key))


def run(sc, st):
    X = np.array(sc['data'], dtype=np.int8)
    orig = X.copy()
    if sc['readonly']:
        X.flags.writeable = False
    n = len(sc['tasks'])

    def world():
        return World(seed=sc['seed'], keyed=True, poison=sc['poison'])

    def intact(what):
        if not (X.dtype == np.int8 and np.array_equal(X, orig)):
            raise Violation('%s changed the data array of the caller' % what)

    solo = []
    for k in range(n):
        out = {}
        call(world(), 'machine %d alone' % k, task, sc, k, X, out)
        intact('machine %d alone' % k)
        solo.append(out)
    # one after another, in one world
    W = world()
    kept = []
    with W:
        for k in sc['order']:
            out = {}
            try:
                kept.append((k, task(sc, k, X, out)))
            except Exception as e:
                if lom_frames(e):
                    raise Violation('machine %d after others raised %s' % (k, describe(e)))
                raise
            judge(out, solo[k], k, 'after others')
    intact('running machines one after another')
    # whatever its owner does to the arrays of one machine stays in there
    states = [state_of(m) for _, m in kept]
    for a in range(len(kept)):
        scribble(kept[a][1], X)
        intact('changing the arrays of machine %d' % kept[a][0])
        states[a] = state_of(kept[a][1])
        for c in range(len(kept)):
            judge(state_of(kept[c][1]), states[c], kept[c][0],
                  'after the arrays of machine %d were changed' % kept[a][0])
    # concurrently
    W = world()
    outs = [{} for _ in range(n)]
    s = sc['sched']
    b = threads.Baton(s['seed'], s['mode'], s['quantum'], s['gran'], s['limit'], s.get('only'),
                      {int(k): int(a) for k, a in sc['faults'] if k < n})
    with W, threads.Events(s['gran']):
        state = b.run([lambda k=k: task(sc, k, X, outs[k]) for k in range(n)])
    st.add('threads.preemptions', b.preemptions)
    st.add('threads.events', b.events)
    st.add('schedule.' + s['mode'])
    st.add('sweeps', W.count['update'])
    for k, v in enumerate(state):
        if v[0] == 'exc':
            if k in b.fired:
                st.add('fault.interrupted_thread')
                continue
            if isinstance(v[1], Exception) and lom_frames(v[1]):
                raise Violation('machine %d among threads raised %s (%s)' % (
                    k, describe(v[1]), b.describe()))
            raise v[1]
        try:
            judge(outs[k], solo[k], k, 'among threads')
        except Violation as e:
            raise Violation('%s (%s)' % (e, b.describe()))
    intact('running machines concurrently')
    W.log(b.preemptions, b.trail[:50], *[v for o in outs for v in o.values()])
    st.world(W)
