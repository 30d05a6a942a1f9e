"""C03 MaxMachine updates sample the exact posterior under current rates"""
import numpy as np
from .. import ref
from ..common import any_layout, gen_layer, gen_rates, pm0, mask, call, Violation, arr
from ..kernel import Rig, gen_run
from ..seams import World

ID = 'C03'
RUNS = dict(quick=6000, thorough=600000)
RULE = ('one evaluation = one simulated MAX-AND machine with a history of runs (re-estimating the '
        'rates), user changes of the rates and fixed marks, whose updates are driven at the exact '
        'acceptance thresholds and in whole sweeps; non-trivial = distinct log of values of a sweep')
MEASURE = 'digest of draws, schedule and values of a sweep'
ASSUMPTIONS = ['rates strictly between 0 and 1, base rate smallest',
               'rate ratios are held in single precision (tolerance 1e-4 on probabilities)']


def gen_large(rng):
    """long axes or very many latent dimensions"""
    deep = rng.random() < .7
    mid = deep and rng.random() < .5
    shape = [rng.randint(1, 3), rng.randint(1, 3)] if deep else [rng.randint(1, 2), rng.randint(129, 400)]
    rng.shuffle(shape)
    L = rng.randint(5, 12) if mid else rng.randint(128, 180) if deep else rng.randint(1, 3)
    lay = gen_layer(rng, 'MAX-AND', shape, L, p=rng.choice([.2, .4, .6] if mid else [.02, .5] if deep else [.1, .5, .9]))
    if not deep:
        b = rng.uniform(.3, .6)
        lay['lbda'] = [round(b + rng.uniform(.001, .01), 5) for _ in range(L)] + [round(b, 5)]
    spec = dict(data=dict(val=pm0(rng, shape, rng.choice([0, .3, .5, .9, 1]), rng.choice([0, .2])), fixed=True),
                layers=[lay])
    k = shape.index(min(shape))
    ops = [dict(op='entry', at=[k, rng.randrange(shape[k]), rng.randrange(L)]) for _ in range(4)]
    if deep:
        ops += [dict(op='entry', at=[k, rng.randrange(shape[k]), rng.randrange(min(127, L // 2), L)]) for _ in range(2)]
    masks = []
    for f in range(2):
        m = [[1] * L for _ in range(shape[f])]
        for _ in range(4):
            m[rng.randrange(shape[f])][rng.randrange(L)] = 0
        masks.append(m)
    ops.append(dict(op='sweep', u=round(rng.random(), 7), free=[k], masks=masks))
    return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops, large='deep' if deep else 'wide')


def gen(rng, tier, i):
    if rng.random() < .02:
        return gen_large(rng)
    shape = [rng.randint(1, 5), rng.randint(1, 5)]
    L = rng.randint(1, 4)
    lay = gen_layer(rng, 'MAX-AND', shape, L)
    for f in lay['factors']:
        if rng.random() < .4:
            f['prior'] = rng.choice([.5, .1, .3, .7, .95, .01])
    spec = dict(data=dict(val=pm0(rng, shape, rng.choice([.3, .5, .7]), rng.choice([0, .2, .5])),
                          fixed=True), layers=[lay])
    any_layout(rng, spec['data'])
    ops = []
    entries = [(f, n, l) for f in range(2) for n in range(shape[f]) for l in range(L)]
    for _ in range(rng.randint(2, 4)):
        x = rng.random()
        if rng.random() < .15:
            ops.append(dict(op='prior', f=rng.randrange(2), val=rng.choice([.5, .05, .4, .8])))
        if x < .3:
            ops.append(dict(op='run', seed=rng.randrange(10 ** 6), n=rng.randint(1, 3),
                            fix_rates=rng.random() < .3, p_extreme=rng.choice([0, .2])))
        elif x < .6:
            ops.append(dict(op='rates', inplace=rng.random() < .4, val=gen_rates(rng, L)))
        for _ in range(3):
            ops.append(dict(op='entry', at=list(rng.choice(entries))))
        ops.append(dict(op='sweep', u=round(rng.random(), 7),
                        free=rng.choice([[0], [1], [0, 1], [0, 1]]),
                        masks=[mask(rng, (shape[f], L), rng.choice([0, 0, .3])) for f in range(2)]))
    if rng.random() < .3:
        ops.append(dict(op='whole', free=rng.choice([[0], [1], [0, 1], [0, 1]]),
                        masks=[mask(rng, (shape[f], L), rng.choice([0, 0, .3])) for f in range(2)], **gen_run(rng)))
    return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops)


def run(sc, st):
    spec = sc['spec']
    rig = Rig(spec, st, sc['seed'])
    if sc.get('large'):
        st.add('large.' + sc['large'])
    lay = rig.layers[0]
    X = np.array(spec['data']['val'])
    midx = [rig.mats.index(f) for f in lay.factors]
    inv = {v: k for k, v in enumerate(midx)}
    priors = [f.get('prior') or .5 for f in spec['layers'][0]['factors']]

    def lo(vals, mi, idx):
        return ref.logit(priors[inv[mi]]) + ref.likelihood_odds(
            'MAX-AND', [vals[j] for j in midx], rig.lb[0], X, inv[mi], idx[0], idx[1])
    kind = 'metropolised'
    for op in sc['ops']:
        if op['op'] == 'run':
            for f in lay.factors:
                f.fixed = False
                f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
            lay.lbda.fixed = op['fix_rates']
            call(World(seed=op['seed'], p_extreme=op['p_extreme']), 'run', rig.m.infer,
                 no_samples=op['n'], burn_in_min=1, burn_in_max=1, convergence_window=3)
            rig.take_state()
            v = rig.lb[0]
            if np.shape(v) != (spec['layers'][0]['L'] + 1,) or np.any(v <= 0) or np.any(v >= 1):
                raise Violation('rates after a run: %s' % (np.asarray(v).tolist(),))
            if np.unique(v).size < v.size:
                st.add('tied_rates')
            st.add('reestimations')
        elif op['op'] == 'rates':
            if op['inplace']:
                lay.lbda.val[:] = np.array(op['val'])
                rig.lb[0] = np.array(op['val'])
                rig.inplace = True
            else:
                rig.lb[0] = np.array(op['val'])
            st.add('rates_set_by_user')
        elif op['op'] == 'prior':
            priors[op['f']] = lay.factors[op['f']].bernoulli_prior = op['val']
        elif op['op'] == 'whole':
            # rates are held in single precision
            rig.check_run([midx[k] for k in op['free']], {midx[k]: arr(op['masks'][k]) for k in range(2)},
                          dict(op, anneal=False), lo, 'MAX-AND run', kind, tol=1e-4)
        elif op['op'] == 'entry':
            k, n, l = op['at']
            mi = midx[k]
            kd = rig.check_entry(mi, (n, l), lo(rig.base, mi, (n, l)), 1e-4,
                                 'MAX-AND factor %d, rates %s' % (k, rates(rig)))
            if kd != 'metropolised':
                kind = kd
        elif op['op'] == 'sweep':
            if kind == 'other':
                continue
            # a draw within rounding of a threshold cannot be judged
            rig.check_sweep([midx[k] for k in op['free']],
                            {midx[k]: arr(op['masks'][k]) for k in range(2)},
                            op['u'], lo, 'MAX-AND sweep, rates %s' % rates(rig), kind)
            rig.take_state()


def rates(rig):
    v = np.round(rig.lb[0], 4).tolist()
    return v if len(v) < 12 else '%s... (%d)' % (v[:4], len(v))
