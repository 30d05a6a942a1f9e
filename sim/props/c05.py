"""C05 whatever the user fixes never changes"""
import random
import numpy as np
from ..common import (mark, gen_machine, other_ways, gen_run, gen_fault, rargs, build, call, guarded,
                      Violation, same, mask, arr, KINDS)
from ..seams import World

ID = 'C05'
RUNS = dict(quick=18000, thorough=1800000)
RULE = ('one evaluation = one simulated machine with randomly fixed matrices, entries, dispersions and data, '
        'taken through up to four runs (complete or aborted by an injected fault), with the fixing pattern '
        'changed in between; non-trivial = distinct event log')
MEASURE = 'digest of draws, schedule, faults and states of a run'
ASSUMPTIONS = ['clean-up off', 'two-operator families, MAX-AND and quorum model (the non-parametric sampler replaces whole factors); no marks '
               'on single quorum values']
ONE = 1.0 - 2.0 ** -53


def gen(rng, tier, i):
    spec = gen_machine(rng, KINDS + ('ql',), mx=rng.choice([3, 5, 7]),
                       fixing=rng.choice([.1, .3, .5]))
    if rng.random() < .1:
        spec['anneal'] = True
    other_ways(rng, spec)
    ops = []
    for _ in range(rng.randint(1, 4)):
        o = gen_run(rng)
        o['op'] = 'run'
        if rng.random() < .45:
            o['fault'] = gen_fault(rng, spec, o)
        o['p_extreme'] = rng.choice([0, 0, .3, .9])
        o['u'] = rng.choice([None] * 6 + [0.0, ONE])
        ops.append(o)
        if rng.random() < .4:
            ops.append(dict(op='refix', seed=rng.randrange(10 ** 6),
                            p=rng.choice([.1, .4, .8])))
    if rng.random() < .5:
        ops.append(dict(op='move', seed=rng.randrange(10 ** 6)))
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6),
                poison=rng.choice([None, 'rand']))


def snap(m):
    s = []
    for x in m.members:
        s.append((np.array(x.val, copy=True), bool(x.fixed),
                  np.array(x.fixed_entries, copy=True)))
    lb = [(np.array(p.val, copy=True), bool(p.fixed)) for p in m.lbdas]
    return s, lb


def check(m, base, where):
    s, lb = base
    for k, (x, (v, fx, fe)) in enumerate(zip(m.members, s)):
        if fx:
            if not same(x.val, v):
                raise Violation('%s: fixed matrix %d changed' % (where, k))
        elif np.shape(x.val) != v.shape:
            raise Violation('%s: shape of matrix %d changed' % (where, k))
        elif np.any((np.asarray(x.val) != v) & (fe == 1)):
            raise Violation('%s: fixed entries of matrix %d changed at %s' % (
                where, k, np.argwhere((x.val != v) & (fe == 1))[0].tolist()))
        if x.fixed != fx or not same(x.fixed_entries, fe):
            raise Violation('%s: the marks of matrix %d changed' % (where, k))
    for k, (p, (v, fx)) in enumerate(zip(m.lbdas, lb)):
        if fx and not same(p.val, v):
            raise Violation('%s: fixed dispersion %d changed from %s to %s' % (
                where, k, v.tolist(), np.asarray(p.val).tolist()))


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    for r, op in enumerate(sc['ops']):
        if op['op'] == 'refix':
            rng = random.Random(op['seed'])
            for x in m.members:
                if x in m.matrices and (x is not data or spec['data'].get('fixed', True)):
                    continue
                x.fixed = rng.random() < op['p'] / 2
                if rng.random() < .7 and not any(x is getattr(l, 'q', None) for l in m.layers):
                    mark(x, mask(rng, x.val.shape, op['p']))
            for p in m.lbdas:
                p.fixed = rng.random() < op['p']
            continue
        if op['op'] == 'move':
            moves(m, data, sc['seed'] + 99, st)
            continue
        base = snap(m)
        W = World(seed=sc['seed'] + 1 + r, p_extreme=op['p_extreme'], poison=sc['poison'],
                  fault=op.get('fault'), u=op['u'])
        what = 'run %d' % r
        W.hooks_after.append(lambda obj: check(m, base, what))
        m.anneal = bool(spec.get('anneal')) and 'fault' not in op
        _, fault = guarded(W, what, m.infer, **rargs(op))
        st.add('sweeps', W.count['update'])
        check(m, base, what + (' after fault' if fault else ''))
        if fault is None:
            for k, (x, (v, fx, fe)) in enumerate(zip(m.members, base[0])):
                if not fx and np.any(fe == 1):
                    t = np.asarray(x.trace)
                    if t.shape[1:] == v.shape and np.any((t != v) & (fe == 1)):
                        raise Violation('%s: fixed entries of matrix %d changed in a sample' % (what, k))
        else:
            st.add('aborted_runs')
        W.log(*[x.val for x in m.members], *[np.asarray(p.val) for p in m.lbdas])
        st.world(W)


def moves(m, data, seed, st):
    """under extreme draws every free entry takes both values"""
    base = snap(m)
    if any(not np.ndim(p.val) and abs(float(p.val)) > 9 for p in m.lbdas):
        # some moves may have probabilities below the smallest draw
        st.add('moves_not_judged')
        return
    # quorum values are no entries
    qs = [k for k, x in enumerate(m.members) if any(x is getattr(l, 'q', None) for l in m.layers)]
    seen = [[v.copy()] for v, _, _ in base[0]]
    for k, u in enumerate((0.0, 0.0, ONE)):
        W = World(seed=seed + k, u=u)
        call(W, 'a sweep', m.infer, no_samples=1, burn_in_min=0, burn_in_max=0,
             convergence_window=5)
        check(m, base, 'extreme draws')
        for s, x in zip(seen, m.members):
            s.append(np.array(x.val, copy=True))
        st.world(W)
    for k, ((v, fx, fe), s) in enumerate(zip(base[0], seen)):
        if fx or k in qs:
            continue
        up = np.any([t == 1 for t in s], axis=0)
        dn = np.any([t == -1 for t in s], axis=0)
        stuck = ~(up & dn) & (fe != 1)
        if np.any(stuck):
            raise Violation('entry %s of matrix %d is not fixed but never moves' % (
                np.argwhere(stuck)[0].tolist(), k))
        st.add('free_entries_moved', int(np.sum(fe != 1)))
