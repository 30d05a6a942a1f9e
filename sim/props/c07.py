"""C07 a run records exactly the drawn samples, in order"""
import numpy as np
from ..common import (gen_machine, other_ways, gen_run, gen_fault, rargs, build, call, guarded,
                      Violation, same, KINDS)
from ..seams import World

ID = 'C07'
RUNS = dict(quick=19250, thorough=1925000)
RULE = ('one evaluation = one simulated machine of any model with one to four runs (some aborted by a fault), '
        'the recorded samples of every completed run are compared with the states seen at the end of each '
        'observed iteration; non-trivial = distinct event log of a completed run')
MEASURE = 'digest of draws, visiting orders, faults and recorded samples'
ASSUMPTIONS = ['recorded dispersions may be single precision (1e-6 relative)']


def gen(rng, tier, i):
    spec = gen_machine(rng, KINDS + ('ibp', 'ibp', 'ql'), mx=rng.choice([3, 5]),
                       fixing=rng.choice([0, .15, .3]))
    other_ways(rng, spec)
    if spec['kind'] == 'ibp':
        for f in spec['layers'][0]['factors']:
            f.pop('fixed', None)
            f.pop('fixed_entries', None)
        spec['layers'][0]['alpha'] = rng.choice([.5, 3, 8, 20])
    if spec['kind'] in ('2d', '3d', 'max') and rng.random() < .2:
        spec['layers'][0]['auto_clean'] = True
    if rng.random() < .15:
        spec['anneal'] = True
    ops = []
    if spec['kind'] != 'ibp' and rng.random() < .1:
        ops.append(dict(op='custom', at=rng.randrange(8)))
    for _ in range(rng.randint(1, 4)):
        o = gen_run(rng, no_samples=rng.choice([0, 1, 2, 3, 5, 8, 13]))
        if not spec.get('anneal') and rng.random() < .3:
            o['fix_lbda_iters'] = rng.randint(0, 5)
        if rng.random() < .3:
            o['fault'] = gen_fault(rng, spec, o, ('draw', 'update', 'alloc', 'write'))
        o['p_extreme'] = rng.choice([0, 0, .3, .9])
        ops.append(o)
        if rng.random() < .3:
            ops.append(dict(op='refix', at=rng.randrange(8)))
        if spec['kind'] != 'ibp' and rng.random() < .03:
            ops.append(dict(op='custom', at=rng.randrange(8)))
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6),
                poison=rng.choice([None, 'rand', 'last', 'nan']))


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    custom = {}
    for r, op in enumerate(sc['ops']):
        if op.get('op') == 'custom':
            c = [x for x in m.members if x.layer is not None and x in x.layer.factors] + m.lbdas
            own_sampler(c[op['at'] % len(c)], custom)
            st.add('own_samplers')
            continue
        if op.get('op') == 'refix':
            if spec['kind'] != 'ibp':
                c = [x for x in m.members if x is not data and x.layer is not None]
                x = c[op['at'] % len(c)]
                x.fixed = not x.fixed
            continue
        one_run(sc, m, r, op, st, custom)


def own_sampler(x, custom):
    """the user assigns an update of his own"""
    calls = custom.setdefault(id(x), [])

    def mine(obj):
        calls.append(obj is x)
        if x.val is None or np.ndim(x.val) == 0:
            x.val = .2 + .01 * (len(calls) % 50)
        elif np.ndim(x.val) == 1:
            x.val = np.sort(.05 + (np.arange(len(x.val)) + len(calls) % 7) * .9 / (len(x.val) + 7))[::-1].copy()
        else:
            x.val = np.where(x.fixed_entries == 1, x.val, -x.val).astype(np.int8)
    x.sampling_fct = mine


def one_run(sc, m, r, op, st, custom={}):
    what = 'run %d' % r
    mats = [x for x in m.members if not x.fixed]
    lbs = [p for p in m.lbdas if not p.fixed]
    name = {id(x): 'matrix %d' % k for k, x in enumerate(m.members)}
    name.update({id(p): 'dispersion %d' % k for k, p in enumerate(m.lbdas)})
    ids = {id(x) for x in mats}
    lids = {id(p) for p in lbs}
    events = []
    snaps = []

    def after(obj):
        events.append(obj)
        snaps.append(({id(x): np.array(x.val, copy=True) for x in mats},
                      {id(p): np.array(p.val, copy=True) for p in lbs}))
        if len(snaps) > keep + 4:
            snaps[len(snaps) - keep - 5] = None

    n = op['no_samples']
    keep = n * (len(mats) + len(lbs))
    W = World(seed=sc['seed'] + 1 + r, p_extreme=op['p_extreme'], poison=sc['poison'],
              fault=op.get('fault'))
    W.hooks_after.append(after)
    for calls in custom.values():
        calls.clear()
    _, fault = guarded(W, what, m.infer, **rargs(op))
    st.add('sweeps', W.count['update'])
    if fault is not None or W.fired:
        st.add('aborted_runs')
        st.world(W)
        return
    # recorded samples
    for x in mats + lbs:
        t = np.asarray(x.trace)
        if t.shape[0] != n:
            raise Violation('%s: %d samples of %s recorded, %d requested' % (
                what, t.shape[0], name[id(x)], n))
        if n:
            differ(what, name[id(x)], n - 1, t[-1], x.val, 'the final state', id(x) in lids)
    M, P = len(mats), len(lbs)
    W.log(*[np.asarray(x.trace) for x in mats + lbs])
    st.world(W)
    if not events or M + P == 0:
        return
    for x in mats + lbs:
        if id(x) in custom:
            calls = custom[id(x)]
            if not all(calls) or len(calls) != sum(1 for e in events if e is x):
                raise Violation('%s: %s was updated %d times, the update assigned by the user was called %d times' % (
                    what, name[id(x)], sum(1 for e in events if e is x), len(calls)))
    # order of updates: the last n blocks of M matrices and P dispersions
    cnt = [sum(1 for e in events if e is x) for x in mats]
    if len(set(cnt)) > 1:
        raise Violation('%s: matrices were updated %s times' % (what, cnt))
    if cnt and cnt[0] < n:
        raise Violation('%s: %d iterations for %d samples' % (what, cnt[0], n))
    for p in lbs:
        if sum(1 for e in events if e is p) < n:
            raise Violation('%s: %s was re-estimated less than %d times' % (what, name[id(p)], n))
    first = len(events) - n * (M + P)
    for e in events:
        if id(e) not in ids and id(e) not in lids:
            raise Violation('%s: %s is fixed but was updated' % (what, name.get(id(e), '?')))
    for k in range(n):
        a = first + k * (M + P)
        block = events[a:a + M + P]
        if {id(e) for e in block[:M]} != ids or {id(e) for e in block[M:]} != lids:
            raise Violation('%s: sampling iteration %d updated %s' % (
                what, k, [name[id(e)] for e in block]))
        if M:
            s = snaps[a + M - 1][0]
            for x in mats:
                differ(what, name[id(x)], k, np.asarray(x.trace)[k], s[id(x)],
                       'the state at the end of the sweep', False)
        s = snaps[a + M + P - 1][1]
        for p in lbs:
            differ(what, name[id(p)], k, np.asarray(p.trace)[k], s[id(p)],
                   'the value after its re-estimation', True)
        st.add('samples_compared', M + P)
    st.add('orders', len({tuple(name[id(e)] for e in events[first + k * (M + P):first + k * (M + P) + M])
                          for k in range(n)}))


def differ(what, nm, k, got, want, which, approx):
    got, want = np.asarray(got), np.asarray(want)
    if approx:
        ok = got.shape == want.shape and bool(
            np.all(np.abs(got.astype(float) - want) <= 2e-6 * (1 + np.abs(want))))
    elif got.ndim == 2 and want.ndim == 2 and got.shape[0] == want.shape[0] and \
            got.shape[1] > want.shape[1]:
        # non-parametric model: padded with inactive dimensions
        ok = same(got[:, :want.shape[1]], want) and bool(np.all(got[:, want.shape[1]:] == -1))
    else:
        ok = same(got, want)
    if not ok:
        raise Violation('%s: sample %d of %s is not %s' % (what, k, nm, which))
