"""C12 a machine carries no hidden state between runs"""
import random
import numpy as np
from .. import ref
from ..common import (any_layout, more_data, mark, gen_machine, gen_run, gen_fault, gen_rates, gen_layer, rargs, build, call,
                      guarded, set_layer, Violation, same, mask, arr, lbda0, KINDS)
from ..seams import World

ID = 'C12'
RUNS = dict(quick=13750, thorough=1375000)
RULE = ('one evaluation = one history of runs, user changes (priors, beta priors, fixed flags and marks, '
        'values, data, added layers) and injected faults on one machine, after which a run is compared with the '
        'same run of a freshly built machine in the same state; non-trivial = distinct event log of the history')
MEASURE = 'digest of draws, faults and states of the history and the compared run'
ASSUMPTIONS = ['state = data, factor and dispersion values, priors, marks, flags and model options']

CHANGES = ('hyper', 'prior', 'prior', 'beta', 'fixed', 'entries', 'val', 'lbda', 'lfixed', 'data', 'anneal',
           'addlayer', 'output')


def gen(rng, tier, i):
    spec = gen_machine(rng, KINDS + ('ibp', 'ibp', 'ql', 'max'), mx=rng.choice([3, 5]),
                       fixing=rng.choice([0, 0, .2]))
    if spec['kind'] == 'ibp':
        for f in spec['layers'][0]['factors']:
            f.pop('fixed', None)
            f.pop('fixed_entries', None)
    kinds = ('draw', 'update', 'alloc', 'write', 'line')
    if spec['kind'] in ('2d', '3d', 'max') and rng.random() < .2:
        spec['layers'][0]['auto_clean'] = True
        kinds = kinds[:4]
    if spec['kind'] == 'ibp':
        kinds = kinds[:4]
    if rng.random() < .08:
        more_data(rng, spec)
    any_layout(rng, spec['data'])
    ops = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .6:
            o = gen_run(rng)
            o['op'] = 'run'
            if rng.random() < .5:
                o['fault'] = gen_fault(rng, spec, o, kinds)
            o['poison'] = rng.choice([None, 'rand', 'nan', 'big', 'last'])
            o['p_extreme'] = rng.choice([0, 0, .3])
            ops.append(o)
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append(dict(op=rng.choice(CHANGES), seed=rng.randrange(10 ** 6)))
    fin = gen_run(rng)
    fin['poison'] = rng.choice([None, 'zero', 'big'])
    return dict(spec=spec, ops=ops, final=fin, seed=rng.randrange(10 ** 6))


def change(sc, m, data, layers, op, st):
    rng = random.Random(op['seed'])
    kind = sc['spec']['kind']
    fs = [f for l in m.layers for f in l.factors]
    w = op['op']
    if w == 'prior':
        if kind == 'ibp':
            fs = fs[1:]
        if fs:
            rng.choice(fs).bernoulli_prior = rng.choice([.5, .05, .3, .9])
    elif w == 'hyper':
        for l in m.layers:
            if l.model == 'OR-AND-IBP':
                l.alpha = rng.choice([.5, 2, 5, 12])
            elif l.model == 'qL-AND':
                l.gamma = rng.choice([.2, 1, 3])
    elif w == 'beta':
        rng.choice(m.lbdas).beta_prior = rng.choice([(1, 1), (20, 1), (1, 20), (5, 5)])
    elif w == 'fixed':
        if kind not in ('ibp',):
            f = rng.choice(fs)
            f.fixed = not f.fixed
    elif w == 'entries':
        if kind != 'ibp':
            f = rng.choice(fs)
            mark(f, arr(mask(rng, f.val.shape, rng.choice([0, .4, 1]))).reshape(f.val.shape))
    elif w == 'val':
        f = rng.choice(fs)
        v = np.array([[rng.choice([-1, 1]) for _ in range(f.val.shape[1])]
                      for _ in range(f.val.shape[0])], dtype=np.int8).reshape(f.val.shape)
        if rng.random() < .5:
            f.val = v
        else:
            f.val[...] = v
    elif w == 'lbda':
        l = rng.choice(m.layers)
        if l.model == 'MAX-AND':
            v = np.array(gen_rates(rng, l.lbda.val.shape[0] - 1))
            if rng.random() < .5:
                l.lbda.val = v
            else:
                l.lbda.val[...] = v
        else:
            l.lbda.val = lbda0(rng)
    elif w == 'lfixed':
        p = rng.choice(m.lbdas)
        p.fixed = not p.fixed
    elif w == 'data':
        if data is not None:
            vals = [-1, 1] if not data.fixed else [-1, 0, 1]
            v = np.random.RandomState(op['seed']).choice(vals, size=data.val.shape).astype(np.int8)
            if rng.random() < .5 or not data.val.flags.writeable:
                data.val = v
            else:
                data.val[...] = v
    elif w == 'anneal':
        m.anneal = not m.anneal
    elif w == 'addlayer':
        if kind in ('2d', 'layered', 'twodata', 'free') and len(m.layers) < 4 and \
                not any(l.auto_clean or l.auto_reset for l in m.layers):
            cands = [x for x in fs + ([data] if data.val.ndim == 2 else [])
                     if len(x.parents) < 2 and x.val.shape[1] > 0 and x.model in (None,) + ref.FAMILIES]
            # a factor of a 3-way layer supports one parent only
            cands = [x for x in cands if x.layer is None or x.layer.dimensionality == 2
                     or len(x.parents) < 1]
            if cands:
                c = rng.choice(cands)
                L = rng.randint(1, 3)
                ls = gen_layer(rng, rng.choice(ref.FAMILIES), list(c.val.shape), L, lbda=lbda0(rng))

                def add():
                    lay = m.add_layer(latent_size=L, child=c, model=ls['model'])
                    set_layer(lay, ls)
                call(World(seed=op['seed']), 'adding a layer', add)
    elif w == 'output':
        l = rng.choice(m.layers)
        call(World(seed=op['seed']), 'output', l.output,
             rng.choice(['point_estimate', 'factor_map', 'factor_mean', 'mc']))
    st.add('change.' + w)


def clone(m):
    """fresh machine in the same state, through the public interface"""
    import lom
    f = lom.Machine()
    twin = {}
    for x in m.matrices:
        y = f.add_matrix(val=np.array(x.val, copy=True), fixed=x.fixed)
        y.bernoulli_prior = x.bernoulli_prior
        y.fixed_entries = np.array(x.fixed_entries, copy=True)
        twin[id(x)] = y
    for l in m.layers:
        k = f.add_layer(latent_size=l.factors[0].val.shape[1], child=twin[id(l.child)],
                        model=l.model)
        for a, b in zip(l.factors, k.factors):
            b.val = np.array(a.val, copy=True)
            b.fixed = a.fixed
            if a.fixed_entries.shape == a.val.shape:
                b.fixed_entries = np.array(a.fixed_entries, copy=True)
            b.bernoulli_prior = a.bernoulli_prior
            twin[id(a)] = b
        k.lbda.val = np.array(l.lbda.val, copy=True) if isinstance(l.lbda.val, np.ndarray) else l.lbda.val
        k.lbda.fixed = l.lbda.fixed
        k.lbda.beta_prior = l.lbda.beta_prior
        k.auto_clean, k.auto_reset = l.auto_clean, l.auto_reset
        if l.model == 'OR-AND-IBP':
            k.alpha = l.alpha
        if l.model == 'qL-AND':
            k.q.val = np.array(l.q.val, copy=True)
            k.gamma = l.gamma
    f.anneal = m.anneal
    return f


def outputs(m, res):
    for k, l in enumerate(m.layers):
        res['lazy output of layer %d' % k] = np.array(l.output('point_estimate', lazy=True))
        for t in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
            if l.model == 'qL-AND' and t != 'point_estimate':
                continue
            res['output of layer %d by %s' % (k, t)] = np.array(l.output(t))
        if l.model not in ('qL-AND', 'MAX-AND'):
            res['noisy output of layer %d' % k] = np.array(l.output('factor_map', noisy_emission=True))


def result(m, seed, op, what):
    W = World(seed=seed, poison=op['poison'])

    def go():
        m.infer(**rargs(op))
        res = dict(iterations=getattr(m, 'burn_in_iters', None))
        for k, x in enumerate(m.members + m.lbdas):
            nm = ('matrix %d' if k < len(m.members) else 'dispersion -%d') % k
            res['value of ' + nm] = np.array(x.val)
            if not x.fixed:
                res['samples of ' + nm] = np.array(x.trace)
            res['average of ' + nm] = np.array(x.mean())
        res['draws'] = W.count['draw']
        outputs(m, res)
        return res
    return call(W, what, go), W


def aborted_averages(m, S, what):
    """averages after an aborted run are averages of states of that run"""
    for k, x in enumerate(m.members + m.lbdas):
        a = np.asarray(x.mean(), dtype=float)
        if same(a, np.asarray(x.val, dtype=float)):
            continue
        seq = S[id(x)]
        ok = False
        for i in range(len(seq)):
            tot = 0.0
            for j in range(i, len(seq)):
                tot = tot + np.asarray(seq[j], dtype=float)
                if tot.shape == a.shape and np.all(np.abs(tot / (j - i + 1) - a) < 1e-5):
                    ok = True
                    break
            if ok:
                break
        if not ok:
            raise Violation('%s: after the aborted run the average of member %d is no average of '
                            'sampled states' % (what, k))


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    for r, op in enumerate(sc['ops']):
        if op['op'] != 'run':
            change(sc, m, data, layers, op, st)
            continue
        W = World(seed=sc['seed'] + 1 + r, poison=op['poison'], p_extreme=op['p_extreme'],
                  fault=op.get('fault'))
        S = {id(x): [] for x in m.members + m.lbdas}
        mats = [x for x in m.members if not x.fixed]
        n = [0]

        def after(obj):
            if id(obj) in S and any(obj is x for x in mats):
                n[0] += 1
                if n[0] % len(mats) == 0:
                    for x in mats:
                        S[id(x)].append(np.array(x.val, copy=True))
            elif id(obj) in S:
                S[id(obj)].append(np.array(obj.val, copy=True))
        W.hooks_after.append(after)
        _, fault = guarded(W, 'run %d' % r, m.infer, **rargs(op))
        st.add('sweeps', W.count['update'])
        if fault is not None:
            st.add('aborted_runs')
            if spec['kind'] != 'ibp' and W.count['update'] and \
                    not any(l.auto_clean or l.auto_reset for l in m.layers):
                aborted_averages(m, S, 'run %d' % r)
        W.log(*[x.val for x in m.members], *[np.asarray(p.val) for p in m.lbdas])
        st.world(W)
    fresh = call(World(seed=sc['seed'] + 5), 'building a fresh machine', clone, m)
    a, W = result(m, sc['seed'] + 77, sc['final'], 'the run after the history')
    b, _ = result(fresh, sc['seed'] + 77, sc['final'], 'the run of the fresh machine')
    st.add('sweeps', W.count['update'])
    for k in b:
        if k not in a or not (same(a[k], b[k])):
            raise Violation('%s differs between a machine with a history and a fresh machine' % k)
    st.add('compared', len(b))
    W.log(*[v for v in a.values() if isinstance(v, np.ndarray)])
    st.world(W)
