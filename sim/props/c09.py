"""C09 annealing climbs to the target dispersion and ends on it"""
import numpy as np
from ..common import (gen_machine, gen_run, gen_fault, gen_rates, rargs, build, call, guarded,
                      Violation, KINDS)
from ..seams import World

ID = 'C09'
RUNS = dict(quick=15000, thorough=1500000)
RULE = ('one evaluation = one simulated machine (any two-operator family, MAX-AND, quorum or non-parametric, one to four layers) run one '
        'to three times with annealing, the dispersions being observed before and after every update; '
        'non-trivial = distinct (targets, iterations, layers, visiting orders)')
MEASURE = 'digest of draws, visiting orders and observed dispersions'
ASSUMPTIONS = ['the first iteration may use the given value or zero']


def gen(rng, tier, i):
    spec = gen_machine(rng, KINDS + ('ql', 'ibp'), mx=rng.choice([3, 5]))
    spec['anneal'] = True
    for l in spec['layers']:
        if rng.random() < .2:
            l['lbda_fixed'] = True
        for f in l['factors']:
            if rng.random() < .1:
                f['fixed'] = True
    ops = []
    for k in range(rng.choice([1, 1, 2, 3])):
        t = []
        for l in spec['layers']:
            if l['model'] == 'MAX-AND':
                t.append(gen_rates(rng, l['L']))
            else:
                t.append(rng.choice([0.0, .1, 1.0, 3.0, round(rng.uniform(0, 9), 6),
                                     1, 3, .7]))
        o = gen_run(rng, no_samples=rng.choice([0, 1, 2]),
                    burn_in_min=rng.choice([0, 1, 2, 3, 5, 7, 10, 13, 49]),
                    burn_in_max=rng.choice([0, 3, 12, 55]), convergence_window=rng.choice([2, 5]))
        o['target'] = t if k == 0 or rng.random() < .7 else None
        if rng.random() < .2:
            o['fault'] = gen_fault(rng, spec, o, ('draw', 'update', 'alloc', 'write'))
        o['p_extreme'] = rng.choice([0, 0, .3])
        ops.append(o)
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6))


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    for r, op in enumerate(sc['ops']):
        if op.get('target') is not None:
            for l, t in zip(layers, op['target']):
                l.lbda.val = np.array(t, dtype=float) if isinstance(t, list) else t
        one_run(sc, m, layers, r, op, st)


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))))


def one_run(sc, m, layers, r, op, st):
    what = 'run %d' % r
    mats = {id(x) for x in m.members if not x.fixed}
    lbs = {id(p): k for k, p in enumerate(m.lbdas)}
    target = [np.array(p.val, dtype=float) for p in m.lbdas]
    fixed = [bool(p.fixed) for p in m.lbdas]
    b = op['burn_in_min']
    M = len(mats)
    n = [0]        # matrix updates begun
    est = [0]

    def expect(k, where):
        """dispersions after annealing step k (0: not begun)"""
        for j, p in enumerate(m.lbdas):
            v = np.asarray(p.val, dtype=float)
            if fixed[j]:
                ok = near(v, target[j])
                w = target[j]
            elif k == 0:
                ok = near(v, target[j]) or near(v, 0 * target[j])
                w = target[j]
            else:
                w = target[j] * k / b
                ok = near(v, w)
            if not ok:
                raise Violation('%s: dispersion %d is %s %s, expected %s (target %s in %d steps)' % (
                    what, j, v.tolist(), where, np.asarray(w).tolist(), target[j].tolist(), b))

    def before(obj):
        if id(obj) in mats:
            it = n[0] // M                 # iterations completed
            n[0] += 1
            if it <= b and b > 0:
                expect(it, 'in iteration %d' % (it + 1))
                W.log(it, [np.asarray(p.val) for p in m.lbdas])
                st.add('annealing_steps_checked')
        elif id(obj) in lbs:
            if M and n[0] < M * (b + 1):
                raise Violation('%s: dispersion %d re-estimated in iteration %d of %d annealing iterations'
                                % (what, lbs[id(obj)], (n[0] + M - 1) // M, b))
            est[0] += 1

    W = World(seed=sc['seed'] + 1 + r, p_extreme=op['p_extreme'], fault=op.get('fault'))
    W.hooks_before.append(before)
    W.hooks_after.append(lambda obj: W.log(id(obj) in mats))
    _, fault = guarded(W, what, m.infer, **rargs(op))
    st.add('sweeps', W.count['update'])
    if fault is not None:
        st.add('aborted_runs')
    for j, p in enumerate(m.lbdas):
        if fixed[j] and not near(p.val, target[j]):
            raise Violation('%s: fixed dispersion %d changed' % (what, j))
    st.world(W)
