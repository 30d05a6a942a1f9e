"""C08 burn-in is bounded, honours its limits and judges real data"""
import numpy as np
from .. import ref
from ..common import (any_layout, more_data, gen_machine, gen_run, gen_fault, rargs, build, call, guarded, reported,
                      Violation, KINDS)
from ..seams import World

ID = 'C08'
RUNS = dict(quick=19500, thorough=1950000)
RULE = ('one evaluation = one simulated machine with one to four runs under random limits, windows and '
        'tolerances and poisoned memory; the observed dispersions are fed to a model of the burn-in rule, which '
        'predicts the number of iterations; non-trivial = distinct history of '
        'dispersions under distinct limits')
MEASURE = 'digest of limits, window length, dispersions of every iteration, verdicts and iterations performed'
ASSUMPTIONS = ['a window verdict within 1e-6 of the tolerance may go either way (single precision)',
               'rates of MAX-AND may be compared directly or after the logistic map',
               'windows do not overlap, the first one starts after the minimum']


def gen(rng, tier, i):
    spec = gen_machine(rng, KINDS + ('ql', 'ibp'), mx=rng.choice([3, 5, 8]),
                       fixing=rng.choice([0, 0, .2, .5]))
    if spec['kind'] == 'ibp':
        for f in spec['layers'][0]['factors']:
            f.pop('fixed', None)
            f.pop('fixed_entries', None)
    if spec['kind'] in ('2d', '3d', 'max') and rng.random() < .15:
        spec['layers'][0][rng.choice(['auto_clean', 'auto_reset'])] = True
    if rng.random() < .15:
        spec['anneal'] = True
    if rng.random() < .08:
        more_data(rng, spec)
    any_layout(rng, spec['data'])
    ops = []
    for _ in range(rng.randint(1, 4)):
        W = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        o = gen_run(rng, convergence_window=W, no_samples=rng.choice([0, 1, 2]),
                    burn_in_min=rng.choice([0, 0, 1, 2, 3, 5, 8]),
                    burn_in_max=rng.choice([0, 1, 2, 3, W, W + 1, 2 * W, 2 * W + 1, 17, 30]),
                    convergence_eps=rng.choice([0.0, 1e-3, .005, .01, .02, .05, .1, .5]))
        if rng.random() < .3:
            o['fault'] = gen_fault(rng, spec, o, ('draw', 'update', 'alloc', 'write'))
        if not spec.get('anneal') and rng.random() < .3:
            o['fix_lbda_iters'] = rng.randint(0, 9)
        o['p_extreme'] = rng.choice([0, 0, .2, .9])
        o['poison'] = rng.choice([None, 'zero', 'nan', 'rand', 'big', 'last'])
        ops.append(o)
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6))


def verdict(window, eps, model):
    """converged? True / False / None (too close to call)"""
    w = np.asarray(window, dtype=float)
    h = w.shape[0] // 2
    a, b = w[:h].mean(axis=0), w[h:].mean(axis=0)
    d = np.abs(ref.expit(a) - ref.expit(b))
    d = np.atleast_1d(d)
    if model == 'MAX-AND':
        d2 = np.atleast_1d(np.abs(a - b))
    else:
        d2 = d
    if np.all(np.maximum(d, d2) < eps - 1e-6):
        return True
    if np.any(np.minimum(d, d2) > eps + 1e-6):
        return False
    if np.all(d == 0) and np.all(d2 == 0) and eps == 0:
        return False
    if model == 'MAX-AND':
        if np.all(d < eps - 1e-6) == np.all(d2 < eps - 1e-6) and \
                np.all(np.abs(d - eps) > 1e-6) and np.all(np.abs(d2 - eps) > 1e-6):
            return bool(np.all(d < eps))
    return None


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    for r, op in enumerate(sc['ops']):
        one_run(sc, m, m.layers, r, op, st)


def one_run(sc, m, layers, r, op, st):
    what = 'run %d' % r
    mats = [x for x in m.members if not x.fixed]
    lbs = [p for p in m.lbdas if not p.fixed]
    models = [l.model for l in layers if not l.lbda.fixed]
    seq = {id(p): [] for p in lbs}
    count = {id(x): 0 for x in mats}

    def after(obj):
        if id(obj) in seq:
            seq[id(obj)].append(np.array(obj.val, dtype=float))
        elif id(obj) in count:
            count[id(obj)] += 1

    n, lo, hi = op['no_samples'], op['burn_in_min'], op['burn_in_max']
    hold = min(op.get('fix_lbda_iters', 0), lo)
    start = [np.array(p.val, dtype=float) for p in lbs]
    sweeps = []                  # dispersions seen when a sweep over the matrices begins

    def before(obj):
        if id(obj) in count:
            if sum(count.values()) % len(mats) == 0:
                sweeps.append([np.array(p.val, dtype=float) for p in lbs])
                if len(sweeps) - 1 <= hold and not all(np.array_equal(a, b) for a, b in zip(start, sweeps[-1])):
                    raise Violation('%s: a dispersion changed in iteration %d of %d iterations that are to leave '
                                    'them' % (what, len(sweeps) - 1, hold))
    win, eps = op['convergence_window'], op['convergence_eps']
    top = max(lo, hi)
    W = World(seed=sc['seed'] + 1 + r, p_extreme=op['p_extreme'], poison=op['poison'],
              fault=op.get('fault'),
              budget=20000 + 400 * (top + n + 5) * (len(m.members) + 2) *
              max(np.size(x.val) for x in m.members))
    W.hooks_after.append(after)
    if lbs and mats and not any(l.auto_clean or l.auto_reset for l in layers):
        W.hooks_before.append(before)
    _, fault = guarded(W, what, m.infer, **rargs(op))
    st.add('sweeps', W.count['update'])
    W.log(n, lo, hi, win, eps, sorted(count.values()), [s for s in seq.values()])
    st.world(W)
    if fault is not None or W.fired:
        st.add('aborted_runs')
        return
    # iterations performed
    T = reported(m, what)
    if W.count['update']:
        if mats:
            tot = count[id(mats[0])]
        else:
            tot = len(seq[id(lbs[0])]) + hold
            if m.anneal and lbs:
                tot += lo
        if tot - n != T:
            raise Violation('%s: %d iterations performed, %d samples, but %s burn-in '
                            'iterations reported' % (what, tot, n, T))
    if not lo <= T <= top:
        raise Violation('%s: %d burn-in iterations, limits are %d and %d' % (what, T, lo, hi))
    clean = any(l.auto_clean or l.auto_reset for l in layers)
    if win < 2 or clean:
        return
    if lbs and not all(len(seq[id(p)]) >= T - lo + n for p in lbs):
        return
    vs = []
    i = win
    while True:
        if lo + i > T:
            break
        res = []
        for p, mod in zip(lbs, models):
            s = seq[id(p)]
            s = s[len(s) - n - (T - lo):]        # drawn after the minimum
            res.append(verdict(s[i - win:i], eps, mod))
        v = False if False in res else (None if None in res else True)
        vs.append(v)
        here = lo + i == T
        if v is True and not here:
            raise Violation('%s: burn-in went on to %d although the window ending at iteration %d '
                            'had converged' % (what, T, lo + i))
        i += win
    ended = (T - lo) % win == 0 and T > lo
    conv = ended and vs and vs[-1] is not False
    if T < top and not conv:
        raise Violation('%s: burn-in ended after %d of at most %d iterations without a converged '
                        'window (minimum %d, window %d)' % (what, T, top, lo, win))
    st.add('windows', len(vs))
    st.add('converged' if conv else 'limit_reached')
    st.state(lo, hi, win, tuple(vs), T)
