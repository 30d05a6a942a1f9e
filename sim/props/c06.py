"""C06 machine state is valid at every instant, also after faults"""
import numpy as np
from ..common import (gen_machine, other_ways, gen_run, gen_fault, rargs, build, call, guarded,
                      check_valid, Violation, KINDS)
from ..seams import World

ID = 'C06'
RUNS = dict(quick=13750, thorough=1375000)
RULE = ('one evaluation = one simulated machine of any model taken through runs of which some are aborted by '
        'an injected interrupt, failed allocation or failed terminal write, followed by a fault-free run; '
        'validity is checked after every update and every fault; non-trivial = distinct event log')
MEASURE = 'digest of draws, schedule, faults and states of a run'
ASSUMPTIONS = ['for the non-parametric model and during clean-up, interrupts strike at draws and between '
               'updates, not between two source lines of one assignment']


def gen(rng, tier, i):
    spec = gen_machine(rng, KINDS + ('ibp', 'ibp', 'ibp', 'ql', 'ql'), mx=rng.choice([3, 5, 8]),
                       fixing=rng.choice([0, 0, .2]))
    other_ways(rng, spec)
    kind = spec['kind']
    kinds = ('draw', 'update', 'line', 'alloc', 'write')
    if kind == 'ibp':
        kinds = ('draw', 'update', 'alloc', 'alloc', 'write')
        for f in spec['layers'][0]['factors']:
            f.pop('fixed', None)
            f.pop('fixed_entries', None)
        spec['layers'][0]['alpha'] = rng.choice([None, .5, 3, 8])
    if kind in ('2d', '3d', 'max') and rng.random() < .35:
        spec['layers'][0][rng.choice(['auto_clean', 'auto_clean', 'auto_reset'])] = True
        kinds = ('draw', 'update', 'alloc', 'alloc', 'write')
    if rng.random() < .15:
        spec['anneal'] = True
    ops = []
    for _ in range(rng.randint(1, 4)):
        o = gen_run(rng)
        if rng.random() < .7:
            o['fault'] = gen_fault(rng, spec, o, kinds)
        o['p_extreme'] = rng.choice([0, 0, .3, .9])
        ops.append(o)
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6),
                poison=rng.choice([None, 'rand', 'nan', 'big']))


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    check_valid(m, 'initially')
    ops = sc['ops'] + [dict(no_samples=2, burn_in_min=1, burn_in_max=4,
                            convergence_window=2, convergence_eps=.1, print_step=2,
                            p_extreme=0)]
    for r, op in enumerate(ops):
        last = r == len(ops) - 1
        W = World(seed=sc['seed'] + 1 + r, p_extreme=op['p_extreme'], poison=sc['poison'],
                  fault=op.get('fault'))
        what = 'run %d' % r
        W.hooks_after.append(lambda obj: check_valid(m, what))
        _, fault = guarded(W, what, m.infer, **rargs(op))
        check_valid(m, what + (' after %s' % W.fired if fault else ' at its end'))
        st.add('sweeps', W.count['update'])
        if fault is not None:
            st.add('aborted_runs')
        elif last:
            st.add('completed_after_history')
            for k, x in enumerate(m.members):
                if not x.fixed and np.shape(x.trace)[0] != op['no_samples']:
                    raise Violation('the last run left %d samples of matrix %d' % (
                        np.shape(x.trace)[0], k))
        W.log(*[x.val for x in m.members], *[np.asarray(p.val) for p in m.lbdas])
        st.world(W)
