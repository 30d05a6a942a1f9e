"""C19 the non-parametric model grows and shrinks consistently"""
import numpy as np
from .. import ref
from ..common import (gen_machine, gen_run, gen_fault, rargs, build, call, guarded, more_data, Violation, same, KINDS)
from ..seams import World

ID = 'C19'
RUNS = dict(quick=10400, thorough=1040000)
RULE = ('one evaluation = one non-parametric machine with one to five runs under random, constant and extreme draws '
        '(any number of new dimensions of positive probability), some aborted by a fault; sizes, activity and '
        'alignment are checked after every update and samples after every run; non-trivial = distinct event log')
MEASURE = 'digest of draws, faults, sizes and states'
ASSUMPTIONS = ['interrupts strike at draws, updates, allocations and terminal writes (not between two assignments)',
               'the second factor is not fixed']
ONE = 1.0 - 2.0 ** -53


def gen(rng, tier, i):
    spec = gen_machine(rng, ('ibp',), mx=rng.choice([2, 4, 6]), maxL=rng.choice([1, 3, 6]),
                       missing=(0, 0, .2, .7))
    lay = spec['layers'][0]
    for f in lay['factors']:
        f.pop('fixed', None)
        f.pop('fixed_entries', None)
    lay['alpha'] = rng.choice([None, .01, .5, 3, 8, 40])
    if rng.random() < .3:
        lay['lbda_fixed'] = True
    if rng.random() < .15:
        lay['factors'][0]['fixed'] = True
    if rng.random() < .2:
        spec['anneal'] = True
    if rng.random() < .15:
        more_data(rng, spec, KINDS + ('ql', 'ibp'))
    ops = []
    for _ in range(rng.randint(1, 5)):
        o = gen_run(rng, no_samples=rng.choice([0, 1, 2, 3, 6]))
        o['p_extreme'] = rng.choice([0, .3, 1.0])
        o['u'] = rng.choice([None, None, None, 0.0, ONE, .5])
        if o['u'] is not None and rng.random() < .7:
            o['p_extreme'] = 1.0
        if spec.get('anneal'):
            o['burn_in_min'] = min(o['burn_in_min'], 3)
        if rng.random() < .35:
            o['fault'] = gen_fault(rng, spec, o, ('draw', 'update', 'alloc', 'write'))
        o['out'] = [[rng.choice(['point_estimate', 'factor_map', 'factor_mean', 'mc']),
                     rng.choice([None, None, 'alloc', 'line'])] for _ in range(2)]
        o['at'] = rng.choice([1, 2, 3, 5, 8, 20])
        ops.append(o)
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6), poison=rng.choice([None, 'rand', 'last', 'nan']))


def shapes(sc, lay, where):
    N, D = np.shape(sc['spec']['data']['val'])
    z, u = np.asarray(lay.factors[0].val), np.asarray(lay.factors[1].val)
    if z.ndim != 2 or u.ndim != 2 or z.shape[0] != N or u.shape[0] != D or z.shape[1] != u.shape[1]:
        raise Violation('%s: factors have shapes %s and %s' % (where, z.shape, u.shape))
    if z.dtype != np.int8 or u.dtype != np.int8:
        raise Violation('%s: factors have types %s and %s' % (where, z.dtype, u.dtype))
    for v in (z, u):
        if not np.all((v == 1) | (v == -1)):
            raise Violation('%s: a factor holds values %s' % (where, np.unique(v).tolist()))
    if lay.size != z.shape[1]:
        raise Violation('%s: size %s reported, factors have %d dimensions' % (where, lay.size, z.shape[1]))
    return z, u


def subsequence(cols, full):
    """columns occur in full in this order"""
    j = 0
    for c in cols:
        while j < len(full) and full[j] != c:
            j += 1
        if j == len(full):
            return False
        j += 1
    return True


def small_draws_set():
    """whether entries are switched on by small draws (and not by large ones)"""
    if not _SET:
        import lom

        def one():
            m = lom.Machine()
            lay = m.add_layer(latent_size=1, model='OR-AND-IBP', child=m.add_matrix(
                np.zeros((4, 2), dtype=np.int8), fixed=True))
            lay.factors[0].val = np.ones((4, 1), dtype=np.int8)
            lay.factors[1].val = np.ones((2, 1), dtype=np.int8)
            lay.factors[1].fixed = True
            lay.lbda.val, lay.lbda.fixed = 0.0, True
            seen = []
            W.hooks_after.append(lambda o: seen.append(np.array(lay.factors[0].val)) if o is lay.factors[0] else None)
            m.infer(no_samples=1, burn_in_min=0, burn_in_max=0, convergence_window=5)
            return seen
        W = World(seed=1, u=.3)
        seen = call(W, 'a run', one)
        _SET.append(bool(seen) and seen[0].shape[1] > 0 and bool(np.all(seen[0][:, 0] == 1)))
    return _SET[0]


_SET = []


def run(sc, st):
    spec = sc['spec']
    small_set = small_draws_set()
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    lay = layers[0]
    z, u = lay.factors
    X = np.array(spec['data']['val'], dtype=np.int8)
    for r, op in enumerate(sc['ops']):
        what = 'run %d' % r
        W = World(seed=sc['seed'] + 1 + r, p_extreme=op['p_extreme'], u=op['u'], poison=sc['poison'],
                  fault=op.get('fault'), budget=400000)
        prev = {}
        sizes = set()
        states = []
        mats = [x for x in (z, u) if not x.fixed]
        cnt = [0]

        def before(obj):
            prev['z'], prev['u'] = np.array(z.val), np.array(u.val)
            if obj is z or obj is u:
                shapes(sc, lay, what)

        def after(obj):
            Z, U = shapes(sc, lay, '%s, after an update' % what)
            sizes.add(Z.shape[1])
            if obj is z:
                st.add('sweeps_of_objects')
                dead = int(np.sum(~np.any(Z == 1, axis=0)))
                if dead:
                    raise Violation('%s: %d of %d dimensions are not active for any object after a sweep of '
                                    'the object factor' % (what, dead, Z.shape[1]))
                # dimensions shared by two objects cannot vanish when all draws switch entries on
                # (unless the probability of switching one on is below the smallest number)
                if op['u'] == 0.0 and small_set and abs(float(lay.lbda.val)) * X.shape[1] < 600:
                    act = np.sum(prev['z'] == 1, axis=0)
                    must = [prev['u'][:, l].tolist() for l in range(act.shape[0]) if act[l] > 1]
                    have = [U[:, l].tolist() for l in range(U.shape[1])]
                    if not subsequence(must, have):
                        raise Violation('%s: dimensions active for several objects lost their attributes in a '
                                        'sweep of the object factor' % what)
                    st.add('alignments')
                d = Z.shape[1] - prev['z'].shape[1]
                st.add('grown' if d > 0 else 'shrunk' if d < 0 else 'kept')
                if Z.shape[1] == 0:
                    st.add('empty_model')
            elif obj is u:
                if not same(Z, prev['z']):
                    raise Violation('%s: the update of the attribute factor changed the object factor' % what)
            else:
                if not (same(Z, prev['z']) and same(U, prev['u'])):
                    raise Violation('%s: the update of the dispersion changed a factor' % what)
            if any(obj is x for x in mats):
                cnt[0] += 1
                if cnt[0] % len(mats) == 0:
                    states.append((np.array(z.val), np.array(u.val)))
            W.log(Z, U)
            st.state(Z.shape[1], Z.tobytes(), U.tobytes())

        W.hooks_before.append(before)
        W.hooks_after.append(after)
        marks = z.fixed
        _, fault = guarded(W, what, m.infer, **rargs(op))
        st.add('sweeps', W.count['update'])
        Z, U = shapes(sc, lay, '%s, at the end' % what)
        if marks and not same(Z, np.array(spec['layers'][0]['factors'][0]['val'])):
            raise Violation('%s: the fixed object factor changed' % what)
        if lay.model != 'OR-AND-IBP' or any(f.model != 'OR-AND-IBP' for f in (z, u)):
            raise Violation('%s: the model is called %s afterwards' % (what, lay.model))
        st.world(W)
        if fault is not None or W.fired:
            st.add('aborted_runs')
        else:
            n = op['no_samples']
            for k, x in enumerate((z, u)):
                if x.fixed:
                    continue
                t = np.asarray(x.trace)
                if t.ndim != 3 or t.shape[0] != n or t.shape[1] != x.val.shape[0]:
                    raise Violation('%s: samples of factor %d have shape %s, %d were requested' % (
                        what, k, t.shape, n))
                for s in range(n):
                    v = states[len(states) - n + s][k]
                    if t.shape[2] < v.shape[1] or not same(t[s, :, :v.shape[1]], v):
                        raise Violation('%s: sample %d of factor %d is not the state of that iteration' % (
                            what, s, k))
                    if not np.all(t[s, :, v.shape[1]:] == -1):
                        raise Violation('%s: sample %d of factor %d has active dimensions beyond its size' % (
                            what, s, k))
                st.add('samples_compared', n)
        # outputs keep the identity, also if they fail
        for j, (tech, fk) in enumerate(op['out']):
            W = World(seed=1, poison=sc['poison'],
                      fault=None if fk is None else dict(kind=fk, at=op['at'] * (7 if fk == 'line' else 1)))
            before_state = (np.array(z.val), np.array(u.val))
            out, fault = guarded(W, 'output', lay.output, tech)
            if lay.model != 'OR-AND-IBP' or any(f.model != 'OR-AND-IBP' for f in (z, u)):
                raise Violation('the model is called %s after %s output' % (
                    lay.model, 'a failing' if fault else 'an'))
            if not (same(z.val, before_state[0]) and same(u.val, before_state[1])):
                raise Violation('output changed the factors')
            if fault is not None:
                st.add('aborted_outputs')
                st.world(W)
                continue
            out = np.asarray(out, dtype=float)
            if out.shape != X.shape or not np.all((out >= -1e-9) & (out <= 1 + 1e-9)):
                raise Violation('output by %s has shape %s and range %s' % (
                    tech, out.shape, [float(np.min(out)), float(np.max(out))] if out.size else []))
            if tech == 'point_estimate':
                F = [np.asarray(z.val), np.asarray(u.val)]
                want = ref.product('OR-AND', F) if F[0].shape[1] else -np.ones(X.shape)
                if not np.array_equal(2 * out - 1, want):
                    raise Violation('output by %s is not the product of the factors' % tech)
