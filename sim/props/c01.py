"""C01 single-layer factor updates sample the exact posterior"""
import random
import itertools
import numpy as np
from .. import ref
from ..common import any_layout, gen_layer, pm0, mask, call, Violation, arr, set_layer
from ..kernel import Rig, gen_run
from ..seams import World

ID = 'C01'
RUNS = dict(quick=7800, thorough=780000)
RULE = ('one evaluation = one simulated machine (family, 2-D/3-D, sizes, data with missing '
        'values, priors, dispersion, history of earlier runs) on which several single '
        'updates are driven at and around the exact acceptance threshold and whole sweeps are run '
        'under constant draws; non-trivial = distinct log of values reached by a sweep')
MEASURE = 'digest of draws, schedule and factor values of a sweep'
ASSUMPTIONS = ['a uniform draw is the only randomness of a single update',
               'compiler off (NUMBA_DISABLE_JIT=1): the Python source of the kernels is what runs']


def gen_large(rng, i):
    """one long axis, two long axes, or very many latent dimensions"""
    model = ref.FAMILIES[i % 8]
    how = 'huge' if i % 600 < 16 else rng.choice(['wide', 'wide', 'wide3', 'deep', 'mid', 'mid', 'mid'])
    shape = dict(wide=lambda: [rng.randint(1, 2), rng.randint(129, 420)],
                 wide3=lambda: [rng.randint(1, 2), rng.randint(12, 20), rng.randint(12, 20)],
                 huge=lambda: [1, rng.randint(33000, 40000)] if i % 600 < 8 else [1, rng.randint(182, 200), 182],
                 deep=lambda: [rng.randint(1, 3), rng.randint(1, 3)],
                 mid=lambda: [rng.randint(1, 4) for _ in range(rng.choice([2, 2, 3]))])[how]()
    rng.shuffle(shape)
    K = len(shape)
    L = rng.randint(128, 300) if how == 'deep' else rng.randint(5, 12) if how == 'mid' else 1 if how == 'huge' else rng.randint(1, 2)
    p = rng.choice([.03, .5, .97]) if how == 'deep' else rng.choice([.1, .3, .5, .8]) if how == 'mid' else rng.choice([0, .1, .5, .9, 1])
    if how == 'huge':
        p = 1 if model.endswith('AND') else 0
    lay = gen_layer(rng, model, shape, L, p=p,
                    lbda=round(rng.choice([.002, .01, .05] if how not in ('deep', 'mid') else [.3, 1.0]) * rng.uniform(.5, 1.5), 5))
    if how == 'huge':
        lay['lbda'] = round(rng.uniform(1e-5, 1e-4), 7)
    for f in lay['factors']:
        if rng.random() < .3:
            f['prior'] = rng.choice([.1, .7])
    spec = dict(data=dict(val=pm0(rng, shape, rng.choice([0, .05, .5, .95, 1]) if how != 'huge' else
                              rng.choice([0, 1]), rng.choice([0, 0, .2]) if how != 'huge' else 0), fixed=True),
                layers=[lay])
    k = shape.index(min(shape))
    ops = []
    for _ in range(5 if how != 'huge' else 1):
        ops.append(dict(op='entry', at=[k, rng.randrange(shape[k]), rng.randrange(L)]))
    if how == 'deep':
        ops.append(dict(op='entry', at=[k, rng.randrange(shape[k]), rng.randrange(127, L)]))
    if how == 'huge':
        return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops, large=how)
    masks = []
    for f in range(K):
        m = [[1] * L for _ in range(shape[f])]
        for _ in range(4):
            m[rng.randrange(shape[f])][rng.randrange(L)] = 0
        masks.append(m)
    ops.append(dict(op='sweep', free=[k], u=round(rng.random(), 7), masks=masks))
    return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops, large=how)


def gen(rng, tier, i):
    if i % 600 < 16 or rng.random() < .06:
        return gen_large(rng, i)
    model = ref.FAMILIES[i % 8]
    three = rng.random() < .35
    big = rng.random() < .15
    K = 3 if three else 2
    mx = 3 if three else (8 if big else 5)
    shape = [rng.randint(1, mx) for _ in range(K)]
    L = rng.randint(1, 3 if three else 4)
    lay = gen_layer(rng, model, shape, L,
                    lbda=round(rng.choice([0.0, .02, .1, .3, .7, 1.3, 2.9, 6.0] * 2 + [40.0, 1000.0]) * rng.uniform(.5, 1.5), 5))
    for f in lay['factors']:
        if rng.random() < .5:
            f['prior'] = rng.choice([.5, .1, .3, .7, .95, .01])
    spec = dict(data=dict(val=pm0(rng, shape, rng.choice([.3, .5, .7]),
                                  rng.choice([0, 0, .2, .6])), fixed=True),
                layers=[lay])
    any_layout(rng, spec['data'])
    ops = []
    if rng.random() < .35:
        ops.append(dict(op='history', iters=rng.randint(1, 4),
                        prior=[rng.choice([.5, .2, .8]) for _ in range(K)],
                        lbda=round(rng.uniform(0, 3), 4), seed=rng.randrange(10 ** 6)))
    entries = [(f, n, l) for f in range(K) for n in range(shape[f]) for l in range(L)]
    rng.shuffle(entries)
    for e in entries[:6]:
        ops.append(dict(op='entry', at=list(e)))
    for _ in range(3):
        free = [f for f in range(K) if rng.random() < .8] or [rng.randrange(K)]
        ops.append(dict(op='sweep', free=free, u=round(rng.random(), 7),
                        masks=[mask(rng, (shape[f], L), rng.choice([0, 0, .3]))
                               for f in range(K)]))
        if rng.random() < .5:
            e = entries[rng.randrange(len(entries))]
            ops.append(dict(op='entry', at=list(e)))
    if rng.random() < .3:
        ops.append(dict(op='whole', free=list(range(K)) if rng.random() < .7 else [rng.randrange(K)],
                        masks=[mask(rng, (shape[f], L), rng.choice([0, 0, .3])) for f in range(K)],
                        **gen_run(rng)))
    return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops)


def run(sc, st):
    spec = sc['spec']
    rig = Rig(spec, st, sc['seed'])
    if sc.get('large'):
        st.add('large.' + sc['large'])
    lay = rig.layers[0]
    model = spec['layers'][0]['model']
    X = np.array(spec['data']['val'])
    fid = {id(f): k for k, f in enumerate(lay.factors)}
    midx = {k: rig.mats.index(f) for k, f in enumerate(lay.factors)}
    inv = {v: k for k, v in midx.items()}
    priors = {}
    for k, f in enumerate(lay.factors):
        p = spec['layers'][0]['factors'][k].get('prior')
        priors[k] = .5 if p is None else p

    def lo(vals, mi, idx):
        k = inv[mi]
        F = [vals[midx[j]] for j in range(len(fid))]
        return (ref.logit(priors[k]) +
                ref.likelihood_odds(model, F, rig.lb[0], X, k, idx[0], idx[1]))

    kind = 'metropolised'
    for op in sc['ops']:
        if op['op'] == 'history':
            W = World(seed=op['seed'])
            keep = [f.bernoulli_prior for f in lay.factors]
            for f, p in zip(lay.factors, op['prior']):
                f.bernoulli_prior = p
                f.fixed = False
                f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
            lay.lbda.fixed = False
            call(W, 'earlier run', rig.m.infer, no_samples=op['iters'], burn_in_min=1,
                 burn_in_max=2, convergence_window=3)
            for f, p in zip(lay.factors, keep):
                f.bernoulli_prior = p
            rig.take_state()
            rig.lb[0] = op['lbda']
            st.add('histories')
        elif op['op'] == 'whole':
            rig.check_run([midx[k] for k in op['free']], {midx[k]: arr(op['masks'][k]) for k in range(len(fid))},
                          op, lo, '%s %d-D run' % (model, len(fid)), kind)
        elif op['op'] == 'entry':
            k, n, l = op['at']
            mi = midx[k]
            if rig.base[mi].shape[0] <= n or rig.base[mi].shape[1] <= l:
                raise Violation('factor %d has shape %s' % (k, rig.base[mi].shape))
            kd = rig.check_entry(mi, (n, l), lo(rig.base, mi, (n, l)), 1e-7,
                                 '%s %d-D factor %d' % (model, len(fid), k))
            if kd != 'metropolised':
                kind = kd
        elif op['op'] == 'sweep':
            if kind == 'other':
                st.add('sweep_skipped_unknown_kernel')
                continue
            rig.check_sweep([midx[k] for k in op['free']],
                            {midx[k]: arr(op['masks'][k]) for k in range(len(fid))},
                            op['u'], lo, '%s %d-D sweep' % (model, len(fid)), kind)
            rig.take_state()
