"""C04 dispersions are re-estimated from exactly the observed data"""
import math
import numpy as np
from .. import ref
from ..common import (any_layout, more_data, gen_machine, gen_run, rargs, build, call, Violation,
                      KINDS)
from ..seams import World

ID = 'C04'
RUNS = dict(quick=13500, thorough=1350000)
RULE = ('one evaluation = one simulated machine (family, 2-D/3-D, layered, MAX-AND, quorum, beta prior, '
        'missing data, fixed dispersions) run one to three times, every dispersion update compared '
        'with a recount from the definition; non-trivial = distinct event log with at least one update')
MEASURE = 'digest of draws, schedule, factors and dispersions of a run'
ASSUMPTIONS = ['beta prior parameters positive', 'recorded dispersions are single precision (1e-5)']


def gen_large(rng):
    """more data points than the small integer types can count"""
    m = rng.choice([12, 12, 14, 20, 30, 270 if rng.random() < .25 else 16])
    spec = gen_machine(rng, ('2d', 'max', 'ql', 'twodata') if m > 16 else ('2d', '3d', 'max', 'ql', 'layered'),
                       mx=m, minsize=m, maxL=2 if m < 100 else 1)
    for l in spec['layers']:
        for f in l['factors']:
            if m > 16 and rng.random() < .8:
                f['fixed'] = True
    o = gen_run(rng, no_samples=1, burn_in_min=0, burn_in_max=rng.choice([0, 1]))
    if rng.random() < .3:
        o['beta'] = [3, 1]
    return dict(spec=spec, ops=[o], seed=rng.randrange(10 ** 6), p_extreme=0, poison=None,
                large='%d data points' % (m ** 2 if len(spec['layers'][0]['factors']) == 2 else m ** 3))


def gen(rng, tier, i):
    if rng.random() < .01:
        return gen_large(rng)
    spec = gen_machine(rng, KINDS + ('ql', 'ibp', '2d', 'max'), mx=rng.choice([3, 6, 9]))
    for l in spec['layers']:
        if rng.random() < .15:
            l['lbda_fixed'] = True
        for f in l['factors']:
            if rng.random() < .15:
                f['fixed'] = True
    if spec['kind'] == 'ibp':
        for f in spec['layers'][0]['factors']:
            f.pop('fixed', None)
    if rng.random() < .08:
        more_data(rng, spec)
    any_layout(rng, spec['data'])
    ops = [gen_run(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    for o in ops:
        if rng.random() < .3:
            o['beta'] = rng.choice([[1, 1], [3, 1], [1, 4], [50, 2]])
        if rng.random() < .2:
            o['newdata'] = rng.randrange(10 ** 6)
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6),
                p_extreme=rng.choice([0, 0, .2]), poison=rng.choice([None, 'nan', 'rand']))


def admissible(lay, factors, child, q):
    a = tuple(lay.lbda.beta_prior)
    if lay.model == 'MAX-AND':
        return ref.max_and_rates(factors[0], factors[1], child)
    if lay.model == 'qL-AND':
        return [ref.quorum_dispersion(factors[0], factors[1], q, child, a)]
    return [ref.dispersion(lay.model, factors, child, a)]


def compare(lay, li, got, factors, child, q, where, tol=1e-9):
    cands = admissible(lay, factors, child, q)
    got = np.asarray(got, dtype=float)
    for c in cands:
        c = np.asarray(c, dtype=float)
        if c.shape == got.shape and np.all(np.abs(c - got) <= tol * (1 + np.abs(c))):
            return
    if len(cands) > 100:      # tie enumeration was cut short
        return
    raise Violation('%s: dispersion of layer %d (%s) is %s, expected %s' % (
        where, li, lay.model, np.round(got, 9).tolist(),
        np.round(np.asarray(cands[0], dtype=float), 9).tolist()))


def run(sc, st):
    spec = sc['spec']
    if sc.get('large'):
        st.add('large')
    W = World(seed=sc['seed'])
    m, data, layers = call(W, 'building the machine', build, spec)
    layers = m.layers
    idx = {id(l.lbda): k for k, l in enumerate(layers)}
    fixed = {}

    def after(obj):
        k = idx.get(id(obj))
        if k is None:
            for j, v in fixed.items():
                if not np.array_equal(v, layers[j].lbda.val):
                    raise Violation('fixed dispersion of layer %d changed' % j)
            return
        l = layers[k]
        st.add('dispersion_updates')
        compare(l, k, l.lbda.val, [f.val for f in l.factors], l.child.val,
                l.q.val[0] if l.model == 'qL-AND' else None, 'after an update')

    for r, op in enumerate(sc['ops']):
        for l in layers:
            if 'beta' in op and l.model != 'MAX-AND':
                l.lbda.beta_prior = tuple(op['beta'])
        if 'newdata' in op and data is not None and data.fixed:
            rs = np.random.RandomState(op['newdata'])
            new = rs.choice([-1, 0, 1], size=data.val.shape).astype(np.int8)
            if op['newdata'] % 2 or not data.val.flags.writeable:
                data.val = new
            else:
                data.val[...] = new
        fixed.clear()
        for k, l in enumerate(layers):
            if l.lbda.fixed:
                fixed[k] = np.array(l.lbda.val, copy=True)
        W = World(seed=sc['seed'] + 1 + r, p_extreme=sc['p_extreme'], poison=sc['poison'])
        W.hooks_after.append(after)
        call(W, 'run %d' % r, m.infer, **rargs(op))
        st.add('sweeps', W.count['update'])
        for k, l in enumerate(layers):
            if k in fixed:
                if not np.array_equal(fixed[k], l.lbda.val):
                    raise Violation('fixed dispersion of layer %d changed' % k)
                continue
            # the state a user sees after the run
            q = l.q.val[0] if l.model == 'qL-AND' else None
            compare(l, k, l.lbda.val, [f.val for f in l.factors], l.child.val, q,
                    'after run %d' % r)
            # recorded samples
            n = op['no_samples']
            tr = np.asarray(l.lbda.trace)
            if l.model == 'OR-AND-IBP' or tr.shape[0] != n:
                continue
            qm = getattr(l, 'q', None)
            for t in range(n):
                fs = [f.val if f.fixed else f.trace[t] for f in l.factors]
                ch = l.child.val if l.child.fixed else l.child.trace[t]
                compare(l, k, tr[t], fs, ch,
                        None if qm is None else qm.trace[t][0],
                        'sample %d of run %d' % (t, r), 2e-6)
                st.add('samples_checked')
        W.log(*[x.val for x in m.members], *[np.asarray(p.val) for p in m.lbdas])
        st.world(W)
