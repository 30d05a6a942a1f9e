"""C20 quorum-model updates sample the exact posterior"""
import math
import numpy as np
from .. import ref
from ..common import any_layout, gen_layer, pm0, mask, call, Violation, arr, same
from ..kernel import Rig, gen_run, ONESTEP, ONE
from ..seams import World

ID = 'C20'
RUNS = dict(quick=4000, thorough=400000)
RULE = ('one evaluation = one simulated quorum (qL-AND) machine with a history of runs whose factor updates are driven '
        'at the exact acceptance thresholds and in whole sweeps and whose quorum updates are driven at the exact '
        'boundaries between quorum values; non-trivial = distinct log of values of a sweep')
MEASURE = 'digest of draws, schedule and values of a sweep'
ASSUMPTIONS = ['quorum values 1 to 5 (a Poisson prior restricted to these)', 'marks on single quorum values are not used']
QS = (1, 2, 3, 4, 5)


def gen_huge(rng):
    """more points per row than 16 bits count"""
    shape = [1, rng.randint(33000, 36000)]
    rng.shuffle(shape)
    lay = gen_layer(rng, 'qL-AND', shape, 1, p=1, lbda=round(rng.uniform(1e-5, 1e-4), 7))
    spec = dict(data=dict(val=pm0(rng, shape, rng.choice([0, 1]), 0), fixed=True), layers=[lay])
    k = shape.index(1)
    ops = [dict(op='q', val=[1] * shape[1]), dict(op='entry', at=[k, 0, 0])]
    if k == 1:
        ops.append(dict(op='quorum', gamma=1, d=0))
    return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops, large=True)


def gen(rng, tier, i):
    if rng.random() < .002:
        return gen_huge(rng)
    large = rng.random() < .03
    shape = [rng.randint(1, 5), rng.randint(1, 5)]
    L = rng.randint(1, 6)
    if large:
        shape = [rng.randint(1, 2), rng.randint(129, 300)]
        rng.shuffle(shape)
        L = rng.randint(1, 3)
    lay = gen_layer(rng, 'qL-AND', shape, L, p=rng.choice([.3, .5, .8, .9]),
                    lbda=round(rng.choice([0.0, .02, .1, .3, .7, 1.3, 2.9, 6.0, 40.0, 1000.0] if not large else [.005, .02]) *
                               rng.uniform(.5, 1.5), 5))
    for f in lay['factors']:
        if rng.random() < .5:
            f['prior'] = rng.choice([.5, .1, .3, .7, .95, .01])
    spec = dict(data=dict(val=pm0(rng, shape, rng.choice([.1, .3, .5, .7]), rng.choice([0, 0, .2, .6])), fixed=True),
                layers=[lay])
    any_layout(rng, spec['data'])
    ops = []
    if rng.random() < .35:
        ops.append(dict(op='history', iters=rng.randint(1, 4), lbda=round(rng.uniform(0, 3), 4),
                        seed=rng.randrange(10 ** 6)))
    entries = [(f, n, l) for f in range(2) for n in range(shape[f]) for l in range(L)]
    if large:
        k = shape.index(min(shape))
        entries = [e for e in entries if e[0] == k]
    rng.shuffle(entries)
    for _ in range(2):
        ops.append(dict(op='q', val=[rng.choice([1, 1, 2, 2, 3, 4, 5]) for _ in range(shape[1])]))
        for e in entries[:3]:
            ops.append(dict(op='entry', at=list(e)))
        rng.shuffle(entries)
        if not large:
            ops.append(dict(op='sweep', free=rng.choice([[0], [1], [0, 1], [0, 1]]), u=round(rng.random(), 7),
                            masks=[mask(rng, (shape[f], L), rng.choice([0, 0, .3])) for f in range(2)]))
        ops.append(dict(op='quorum', gamma=rng.choice([1, 1, .2, .9, 2.5, 6, 30, 1000]), d=rng.randrange(shape[1])))
    if not large and L <= 4 and rng.random() < .3:
        ops.append(dict(op='whole', free=rng.choice([[0], [1], [0, 1], [0, 1]]), gamma=rng.choice([1, .9, 2.5]),
                        masks=[mask(rng, (shape[f], L), rng.choice([0, 0, .3])) for f in range(2)], **gen_run(rng)))
    return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops, large=large)


def quorum_odds(F, q, lbda, X, k, n, l):
    """log-odds of entry (n, l) of factor k"""
    Z, U = [np.asarray(f) == 1 for f in F]
    q = np.asarray(q, dtype=int).ravel()
    tot = 0
    for z in (1, 0):
        A = [Z.copy(), U.copy()]
        A[k][n, l] = bool(z)
        if k == 0:
            cnt = A[0][n].astype(int) @ A[1].astype(int).T
            pred = np.where(cnt >= q, 1, -1)
            x = X[n]
        else:
            cnt = A[0].astype(int) @ A[1][n].astype(int)
            pred = np.where(cnt >= q[n], 1, -1)
            x = X[:, n]
        tot += (1 if z else -1) * int(np.sum(pred == x))
    # an observed point is right under one value and wrong under the other
    return lbda * tot


def quorum_probs(Z, U, lbda, X, d, gamma):
    cnt = (np.asarray(Z) == 1).astype(int) @ (np.asarray(U)[d] == 1).astype(int)
    x = np.asarray(X)[:, d]
    lp = []
    for k in QS:
        pred = np.where(cnt >= k, 1, -1)
        right, wrong = int(np.sum(pred == x)), int(np.sum(pred == -x))
        lp.append(k * math.log(gamma) - math.lgamma(k + 1) + lbda * (right - wrong) * .5)
    # logistic(lbda)^right logistic(-lbda)^wrong, up to a constant for a fixed number of observed points
    m = max(lp)
    w = [math.exp(v - m) for v in lp]
    return [v / sum(w) for v in w]


def run(sc, st):
    spec = sc['spec']
    rig = Rig(spec, st, sc['seed'])
    lay = rig.layers[0]
    if sc.get('large'):
        st.add('large')
    X = np.array(spec['data']['val'])
    midx = [rig.mats.index(f) for f in lay.factors]
    qi = rig.mats.index(lay.q)
    priors = [f.get('prior') or .5 for f in spec['layers'][0]['factors']]
    inv = {v: k for k, v in enumerate(midx)}

    def lo(vals, mi, idx):
        k = inv[mi]
        return ref.logit(priors[k]) + quorum_odds([vals[j] for j in midx], vals[qi], rig.lb[0], X, k, idx[0], idx[1])

    def q_at(u, q0):
        """quorum values after one update with all draws equal to u"""
        keep = rig.base[qi]
        rig.base[qi] = np.full(keep.shape, q0, dtype=keep.dtype) if q0 else keep
        rig.reset([qi])
        rig.base[qi] = keep
        W = rig.world(u)
        call(W, 'update of the quorum values', rig.m.infer, **ONESTEP)
        st.add('sweeps')
        for j, x in enumerate(rig.mats):
            if j != qi and not same(x.val, rig.base[j]):
                raise Violation('the update of the quorum values changed matrix %d' % j)
        v = np.asarray(lay.q.val)
        if v.shape != keep.shape:
            raise Violation('quorum values have shape %s after an update' % (v.shape,))
        if not np.all((v >= QS[0]) & (v <= QS[-1])):
            raise Violation('an update with draws equal to %.17g gave quorum values %s' % (u, v.ravel().tolist()))
        W.log(v)
        st.world(W)
        return v.ravel().astype(int)

    drawn = []          # how quorum values are drawn, as far as known

    def q_in_run(old, new, u):
        if not drawn or not all(drawn):
            return
        Z, U = [old[j] for j in midx]
        st.add('quorum_updates_judged_in_runs')
        for d in range(U.shape[0]):
            c, want = 0.0, None
            for k, p in zip(QS, quorum_probs(Z, U, rig.lb[0], X, d, lay.gamma)):
                c += p
                if abs(c - u) < 1e-6 and k < QS[-1]:
                    break
                if u < c or k == QS[-1]:
                    want = k
                    break
            if want is not None and int(np.ravel(new[qi])[d]) != want:
                raise Violation('a draw of %.9g gave quorum value %d in a run (dispersion %.6g), expected %d' % (
                    u, int(np.ravel(new[qi])[d]), rig.lb[0], want))

    kind = 'metropolised'
    for op in sc['ops']:
        if op['op'] == 'history':
            keep = [f.bernoulli_prior for f in lay.factors]
            for x in list(lay.factors) + [lay.q]:
                x.bernoulli_prior, x.fixed = .5, False
                x.fixed_entries = np.zeros(x.val.shape, dtype=np.int8)
            lay.lbda.fixed = False
            call(World(seed=op['seed']), 'earlier run', rig.m.infer, no_samples=op['iters'], burn_in_min=1,
                 burn_in_max=2, convergence_window=3)
            for f, p in zip(lay.factors, keep):
                f.bernoulli_prior = p
            rig.take_state()
            rig.lb[0] = op['lbda']
            st.add('histories')
        elif op['op'] == 'q':
            rig.base[qi] = np.array([op['val']], dtype=rig.base[qi].dtype)
        elif op['op'] == 'entry':
            k, n, l = op['at']
            kd = rig.check_entry(midx[k], (n, l), lo(rig.base, midx[k], (n, l)), 1e-7, 'quorum model, factor %d' % k)
            if kd != 'metropolised':
                kind = kd
        elif op['op'] == 'whole':
            lay.gamma = op['gamma']
            rig.check_run([midx[k] for k in op['free']], {midx[k]: arr(op['masks'][k]) for k in range(2)},
                          op, lo, 'run of the quorum model', kind, extra={qi: q_in_run})
        elif op['op'] == 'sweep':
            if kind == 'other':
                continue
            rig.check_sweep([midx[k] for k in op['free']], {midx[k]: arr(op['masks'][k]) for k in range(2)},
                            op['u'], lo, 'sweep of the quorum model', kind)
            rig.take_state()
        else:
            drawn.append(check_quorum(rig, lay, op, midx, X, q_at, st))


def check_quorum(rig, lay, op, midx, X, q_at, st):
    lay.gamma = op['gamma']
    d = op['d']
    Z, U = [rig.base[j] for j in midx]
    want = quorum_probs(Z, U, rig.lb[0], X, d, op['gamma'])
    st.add('quorum_updates')
    for u in (0.0, ONE):
        q_at(u, None)
    # as inverse of the cumulative probabilities
    ok, c = True, 0.0
    for k, p in zip(QS, want):
        lo, hi = c + 1e-7, c + p - 1e-7
        c += p
        if hi > lo:
            for u in (lo, hi):
                if q_at(min(max(u, 0.0), ONE), None)[d] != k:
                    ok = False
        if not ok:
            break
    if ok:
        return True
    # any other way to draw: transition probabilities by measuring the lengths of the draws' ranges
    T = np.zeros((len(QS), len(QS)))
    for q0 in QS:
        grid = [i / 200. for i in range(200)] + [ONE]
        vals = [q_at(u, q0)[d] for u in grid]
        for a, b, x, y in zip(grid, grid[1:], vals, vals[1:]):
            if x == y:
                T[q0 - 1, x - 1] += b - a
                continue
            l, h = a, b
            for _ in range(24):
                m = .5 * (l + h)
                if q_at(m, q0)[d] == x:
                    l = m
                else:
                    h = m
            T[q0 - 1, x - 1] += l - a
            T[q0 - 1, y - 1] += b - l
    st.add('quorum_updates_measured')
    w = np.array(want)
    if np.max(np.abs(w @ T - w)) > 1e-3:
        raise Violation('quorum values 1 to 5 are drawn with probabilities %s (starting from 1), the exact conditional '
                        'is %s' % (np.round(T[0], 4).tolist(), np.round(w, 4).tolist()))
    return False
