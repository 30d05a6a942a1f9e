"""C11 row-parallel kernels are race-free and order-independent"""
import numpy as np
from .. import ref, threads
from ..common import (gen_machine, gen_run, rargs, build, call, guarded, Violation, same,
                      arr, pm, KINDS)
from .. import seams
from ..seams import World

ID = 'C11'
RUNS = dict(quick=3000, thorough=300000)
RULE = ('one evaluation = one machine (or one data generation) executed three times with the same draw per entry: '
        'rows in order, rows in random order, and rows divided among 2-5 simulated workers that are preempted '
        'between byte-codes or source lines; all values, samples, dispersions and outputs must agree and outputs '
        'and agreement counts must equal the logical definition; non-trivial = distinct event log '
        '(schedule, draws and states)')
MEASURE = 'digest of schedule (all preemption points), draws and resulting states'
ASSUMPTIONS = ['semantics of numba.prange: scalars private per worker, reductions combined, arrays shared, '
               'inner parallel loops sequential', 'byte-codes are atomic']
REAL = ['kernels of lom (byte-code of the loop bodies as written)']
STUB = ['numba workers (threads under a seeded baton scheduler)', 'uniform draws (keyed by row)']


def gen(rng, tier, i):
    sched = dict(seed=rng.randrange(10 ** 9), workers=rng.choice([2, 2, 3, 4, 5]),
                 division=rng.choice(['random', 'block', 'cyclic']),
                 mode=rng.choice(['random', 'random', 'lockstep', 'stall', 'pct']),
                 quantum=rng.choice([2, 5, 12, 40, 150]),
                 gran=rng.choice(['opcode', 'opcode', 'line']), limit=10 ** 9)
    if rng.random() < .15:
        K = rng.choice([2, 3])
        L = rng.randint(1, 3)
        fuzzy = rng.random() < .4
        shape = [rng.randint(2 if k == 0 and rng.random() < .9 else 1, 6 if K == 2 else 4) for k in range(K)]
        sched['quantum'] = rng.choice([1, 2, 5, 12, 40])
        if fuzzy:
            fs = [[[round(rng.random(), 3) for _ in range(L)] for _ in range(k)] for k in shape]
        else:
            fs = [pm(rng, (k, L)) for k in shape]
        return dict(kind='generate', model=rng.choice(ref.FAMILIES), factors=fs, fuzzy=fuzzy,
                    sched=sched, seed=rng.randrange(10 ** 6))
    spec = gen_machine(rng, KINDS + ('3d', 'layered', 'ql'), mx=rng.choice([4, 5, 6]), minsize=2,
                       maxL=3, fixing=rng.choice([0, 0, .2]))
    op = gen_run(rng, no_samples=rng.choice([1, 1, 2]), burn_in_min=0,
                 burn_in_max=rng.choice([0, 0, 1]))
    return dict(kind='machine', spec=spec, op=op, sched=sched, seed=rng.randrange(10 ** 6),
                tech=rng.sample(['point_estimate', 'factor_map', 'factor_mean', 'mc'], 2))


def shrink(sc):
    s = sc['sched']
    for key, vals in (('workers', [2]), ('division', ['block']), ('mode', ['random', 'pct'])):
        for v in vals:
            if s[key] != v and not (key == 'workers' and s[key] <= v):
                yield dict(sc, sched=dict(s, **{key: v}))
    if s['limit'] > 2000:
        yield dict(sc, sched=dict(s, limit=2000))
    for v in (1, s['limit'] // 8, s['limit'] // 2, s['limit'] - max(1, s['limit'] // 8), s['limit'] - 1):
        if 0 <= v < s['limit']:
            yield dict(sc, sched=dict(s, limit=v))
    if sc['kind'] == 'machine':
        sp = sc['spec']
        if sc['op']['burn_in_max']:
            yield dict(sc, op=dict(sc['op'], burn_in_max=0))
        if sc['op']['no_samples'] > 1:
            yield dict(sc, op=dict(sc['op'], no_samples=1))
        if len(sp['layers']) > 1:
            yield dict(sc, spec=dict(sp, layers=sp['layers'][:-1]))
        if len(sc['tech']) > 1:
            yield dict(sc, tech=sc['tech'][:1])
            yield dict(sc, tech=sc['tech'][1:])


def par(sc, kind):
    s = sc['sched']
    return threads.Parallel(kind, seed=s['seed'], workers=s['workers'], division=s['division'],
                            mode=s['mode'], quantum=s['quantum'], gran=s['gran'], limit=s['limit'])


def on_prange(P):
    """rows of parallel loops of functions that could not be rewritten"""
    active = []

    def hook(r, frame):
        if any(f is frame for f in active) or threads.in_worker():
            return r
        rows = list(r)
        if P.kind == 'perm':
            P.rng.shuffle(rows)
        P.calls += 1

        def it(n=P.calls):
            active.append(frame)
            try:
                for x in threads.keyed_rows(rows, n):
                    yield x
            finally:
                active.remove(frame)
        return it()
    return hook


def world(sc, P):
    W = World(seed=sc['seed'], keyed=True)
    W.on_prange = on_prange(P)
    return W


def one(sc, kind):
    """execute the scenario with parallel loops executed as told"""
    P = par(sc, kind)
    W = world(sc, P)
    what = 'execution with parallel rows' if kind == 'workers' else 'execution of rows in order' \
        if kind == 'seq' else 'execution of rows in random order'
    res = {}

    def machine():
        m, data, layers = build(sc['spec'])
        m.infer(**rargs(sc['op']))
        for k, x in enumerate(m.members + m.lbdas):
            nm = ('matrix %d' % k) if k < len(m.members) else 'dispersion %d' % (k - len(m.members))
            res[nm] = np.array(x.val)
            if not x.fixed:
                res['samples of ' + nm] = np.array(x.trace)
        for k, l in enumerate(layers):
            for t in sc['tech']:
                if l.model == 'qL-AND' and t != 'point_estimate':
                    continue
                res['output of layer %d by %s' % (k, t)] = np.array(l.output(t))
        return m, layers

    def generate():
        import lom.auxiliary_functions as aux
        fs = [np.array(f, dtype=float if sc['fuzzy'] else np.int8) for f in sc['factors']]
        res['generated data'] = np.array(
            aux.lom_generate_data_fast(fs, model=sc['model'], fuzzy=sc['fuzzy']))

    with P:
        got = call(W, what, machine if sc['kind'] == 'machine' else generate)
    return res, W, P, got


def agree(a, b, what):
    for k in a:
        if k not in b or np.shape(a[k]) != np.shape(b[k]) or not (
                same(a[k], b[k]) or (a[k].dtype.kind == 'f' and
                                     np.allclose(a[k], b[k], rtol=1e-6, atol=1e-9, equal_nan=True))):
            n = int(np.sum(a[k] != b[k])) if k in b and np.shape(a[k]) == np.shape(b[k]) else -1
            raise Violation('%s: %s differs in %d entries' % (what, k, n))


def logical(sc, res, got):
    """results equal the definition"""
    if sc['kind'] == 'generate':
        fs = [np.array(f) for f in sc['factors']]
        if sc['fuzzy']:
            want = 2 * ref.fuzzy(sc['model'], fs) - 1
            a = res['generated data']
            ok = np.allclose(a, want, atol=1e-9) or np.allclose(a, (want + 1) / 2, atol=1e-9)
        else:
            ok = same(res['generated data'], ref.product(sc['model'], fs))
        if not ok:
            raise Violation('generated data is not the %s product' % sc['model'])
        return
    m, layers = got
    for k, l in enumerate(layers):
        F = [np.array(f.val) for f in l.factors]
        key = 'output of layer %d by point_estimate' % k
        if l.model not in ('MAX-AND', 'qL-AND'):
            P = ref.product(l.model, F)
            if key in res and not np.array_equal(2 * res[key] - 1, P):
                raise Violation('output of layer %d is not the logical product of its factors' % k)
            p = l.lbda
            if not p.fixed and not l.model.startswith('qL'):
                X = np.asarray(l.child.val)
                obs = int(np.sum(X != 0))
                cor = int(np.sum((X == P) & (X != 0)))
                a, b = p.beta_prior
                want = max(.5, (cor + a) / (obs + a + b)) if obs + a + b else .5
                if abs(float(ref.expit(p.val)) - want) > 1e-6:
                    raise Violation('dispersion of layer %d corresponds to %.6f, %d of %d data points '
                                    'are predicted correctly' % (k, float(ref.expit(p.val)), cor, obs))


def run(sc, st):
    a, W, P, got = one(sc, 'seq')
    logical(sc, a, got)
    st.world(W)
    b, W, P, _ = one(sc, 'perm')
    agree(a, b, 'rows in random order')
    st.add('loops.permuted', P.calls)
    c, W, P, got = one(sc, 'workers')
    st.add('loops.parallel', P.loops)
    st.add('sweeps', W.count['update'])
    st.add('loops.preemptions', P.preemptions)
    st.add('schedule.' + sc['sched']['mode'])
    for n in P.names:
        st.add('kernel.' + n)
    try:
        agree(a, c, 'rows divided among workers')
        logical(sc, c, got)
    except Violation as e:
        raise Violation('%s (%s: %s)' % (e, P.last[0] if P.last else '', P.last[1] if P.last else ''))
    W.log(P.preemptions, P.last, *[v for v in c.values()])
    st.world(W)
    st.state(P.preemptions, P.last, W.digest())
