"""C13 outputs and averages are the stated functions of the samples"""
import random
import numpy as np
from .. import ref
from ..common import (gen_machine, updates_seen, other_ways, gen_run, gen_fault, gen_rates, rargs, build, call, guarded,
                      Violation, same, close, mask, arr, lbda0, pm, KINDS)
from ..seams import World
from .c12 import aborted_averages

ID = 'C13'
RUNS = dict(quick=9000, thorough=900000)
RULE = ('one evaluation = one machine (one of 36 model names, MAX-AND, non-parametric, quorum, layered) with a history of '
        'complete and aborted runs and fixing changes, after each of which averages and outputs of all '
        'techniques are compared with the logical definition, some computed under failing allocations or '
        'interrupts; non-trivial = distinct event log')
MEASURE = 'digest of draws, faults, states and outputs'
ASSUMPTIONS = ['averages of exactly 0 have no sign (factor_map not judged there)',
               'outputs of the quorum model are judged for the current state only',
               'factor_map of MAX-AND may use current or average rates',
               'recorded dispersions are single precision (1e-5)']
TECH = ('point_estimate', 'factor_map', 'factor_mean', 'mc', 'factor_mean_old')


def gen(rng, tier, i):
    if rng.random() < .006:
        return gen_reconstruct(rng)
    if rng.random() < .04:
        return gen_generate(rng)
    x = rng.random()
    if x < .6:
        spec = gen_machine(rng, ('2d', '2d', '3d'), mx=rng.choice([2, 4]), maxL=3,
                           fixing=rng.choice([0, .2, .4]), names=ref.ALL_NAMES)
        spec['layers'][0]['model'] = ref.ALL_NAMES[i % 36]
    elif x < .61:
        # more latent dimensions than the smallest integer type can count
        spec = gen_machine(rng, ('2d', '2d', '3d', 'max'), mx=2, minL=128, maxL=136, names=ref.ALL_NAMES)
    else:
        spec = gen_machine(rng, ('max', 'max', 'ibp', 'layered', 'twodata', 'free', 'ql'),
                           mx=rng.choice([2, 4]), maxL=3, fixing=rng.choice([0, .2, .4]))
    other_ways(rng, spec)
    if spec['kind'] == 'ibp':
        for f in spec['layers'][0]['factors']:
            f.pop('fixed', None)
            f.pop('fixed_entries', None)
    ops = []
    kinds = ('draw', 'update', 'alloc', 'write') if spec['kind'] == 'ibp' else \
        ('draw', 'update', 'alloc', 'write', 'line')
    if rng.random() < .3:
        ops.append(outputs_op(rng))
    for _ in range(rng.randint(1, 3)):
        o = gen_run(rng, no_samples=rng.choice([0, 1, 1, 3, 3, 5]))
        o['op'] = 'run'
        o['poison'] = rng.choice([None, 'rand', 'nan', 'last'])
        if rng.random() < .3:
            o['fault'] = gen_fault(rng, spec, o, kinds)
        ops.append(o)
        ops.append(outputs_op(rng))
        if rng.random() < .3:
            ops.append(dict(op='refix', seed=rng.randrange(10 ** 6)))
            if rng.random() < .5:
                ops.append(outputs_op(rng))
        if rng.random() < .1:
            ops.append(dict(op='map'))
    return dict(spec=spec, ops=ops, seed=rng.randrange(10 ** 6))


def gen_reconstruct(rng):
    shape = [rng.randint(1, 3) for _ in range(3)]
    return dict(kind='reconstruct', x=pm(rng, shape, rng.choice([.2, .5, .8])), L=rng.randint(1, 3),
                seed=rng.randrange(10 ** 6), how=rng.choice(['bool', 'zeroone', 'int64', 'sign']))


def reconstruct(sc, st):
    """whole-tensor convenience function: outputs of the factors it returns"""
    import lom.experiments as ex
    S = np.array(sc['x'], dtype=np.int8)
    X = dict(bool=lambda: S == 1, zeroone=lambda: np.array(S == 1, dtype=np.int8), int64=lambda: S.astype(np.int64),
             sign=lambda: S.copy())[sc['how']]()
    keep = X.copy()
    W = World(seed=sc['seed'], budget=10 ** 7)
    r = call(W, 'tensorm_reconstruct', ex.tensorm_reconstruct, X, sc['L'])
    if not same(X, keep) or X.dtype != keep.dtype:
        raise Violation('tensorm_reconstruct changed its input')
    out, F, plug = r
    F = [np.asarray(f, dtype=float) for f in F]
    if [f.shape for f in F] != [(k, sc['L']) for k in S.shape] or any(np.any(np.abs(f) > 1) for f in F):
        raise Violation('tensorm_reconstruct returns factors of shapes %s' % [f.shape for f in F])
    want = ref.fuzzy('OR-AND', [(f + 1) / 2 for f in F])
    if not close(np.asarray(out, dtype=float), want, 2e-5):
        raise Violation('reconstruction differs from the product of the factors returned')
    if not any(np.any(f == 0) for f in F):
        want = (ref.product('OR-AND', [np.where(f > 0, 1, -1) for f in F]) + 1) / 2
        if not close(np.asarray(plug, dtype=float), want):
            raise Violation('plug-in reconstruction differs from the product of the rounded factors')
    lay = call(World(seed=sc['seed'], budget=10 ** 7), 'tensorm_reconstruct', ex.tensorm_reconstruct, S.copy(), sc['L'],
               return_layer=True)
    if len(np.unique(S)) == 2 or sc['how'] == 'sign':
        for f, g in zip(F, lay.factors):
            if not close(f, g.mean(), 1e-9):
                raise Violation('tensorm_reconstruct gives other factors for %s data than for its -1/1 coding' % sc['how'])
    if updates_seen() and W.count['update'] < 3:
        raise Violation('tensorm_reconstruct returned factors without inference')
    st.add('reconstructions')
    st.add('sweeps', W.count['update'])
    W.log(*F, out)
    st.world(W)


def gen_generate(rng):
    K = rng.choice([2, 2, 3, 3, 4])
    big = {2: 6, 3: 4, 4: 3}[K]
    L = rng.randint(1, 4)
    return dict(kind='generate', seed=rng.randrange(10 ** 6), model=rng.choice(ref.ALL_NAMES),
                how=rng.choice(['fast', 'fast', 'slow', 'fuzzy', 'fuzzy', 'slow fuzzy', 'tensor', 'orm']), L=L,
                factors=[pm(rng, (rng.randint(1, big), L), rng.choice([.2, .5, .8])) for _ in range(K)],
                probs=[[rng.choice([0, .5, 1, round(rng.random(), 3)]) for _ in range(40)] for _ in range(K)],
                dtype=rng.choice(['int8', 'int8', 'int64', 'float64']), order=rng.choice('CF'),
                poison=rng.choice([None, 'rand', 'nan', 'big', 'last']),
                fault=rng.choice([None, dict(kind='alloc', at=rng.randint(1, 5))]))


def generate(sc, st):
    """data generated from given (or drawn) factors"""
    import lom.auxiliary_functions as aux
    how, model, L = sc['how'], sc['model'], sc['L']
    F = [np.array(f, dtype=sc['dtype'], order=sc['order']) for f in sc['factors']]
    P = [np.array([[q[(i * L + l) % 40] for l in range(L)] for i in range(f.shape[0])], order=sc['order'])
         for q, f in zip(sc['probs'], F)]
    if how == 'orm':
        W = World(seed=sc['seed'], poison=sc['poison'])
        U, Z, X = call(W, 'generate_orm_product', aux.generate_orm_product, N=8 + sc['seed'] % 5, D=9, L=L)
        U, Z, X = [np.asarray(a) for a in (U, Z, X)]
        if Z.shape != (8 + sc['seed'] % 5, L) or U.shape != (9, L) or not same(X, ref.product('OR-AND', [Z, U])):
            raise Violation('generate_orm_product: the data is not the product of the factors')
        if not all(np.all(np.abs(a) == 1) for a in (U, Z)):
            raise Violation('generate_orm_product: factors hold other values than -1 and 1')
        for nm, a in (('first', Z), ('second', U)):
            for i in range(L):
                for j in range(L):
                    if i != j and np.all(a[a[:, i] == 1, j] == 1):
                        raise Violation('generate_orm_product: column %d of the %s factor lies within column %d' % (i, nm, j))
        W.log(U, Z, X)
        st.world(W)
        return
    if how == 'tensor':
        if len(F) != 3:
            return
        B = [f == 1 for f in F]
        args, want = B, ref.product('OR-AND', F) == 1
        fn = aux.boolean_tensor_product
    elif how in ('fast', 'slow'):
        args, want = F, ref.product(model, F)
        fn = (lambda *a: aux.lom_generate_data_fast(list(a), model)) if how == 'fast' else \
            (lambda *a: aux.lom_generate_data(list(a), model))
    else:
        want = ref.fuzzy(model, P)
        args = P if how == 'fuzzy' else [2 * q - 1 for q in P]
        fn = (lambda *a: aux.lom_generate_data_fast(list(a), model, fuzzy=True)) if how == 'fuzzy' else \
            (lambda *a: aux.lom_generate_data_fuzzy(list(a), model))
    keep = [a.copy() for a in args]
    what = 'generating data (%s, %s, %d factors)' % (how, model, len(F))
    W = World(seed=sc['seed'], poison=sc['poison'], fault=sc['fault'])
    r, fault = guarded(W, what, fn, *args)
    st.world(W)
    if not all(same(a, b) for a, b in zip(args, keep)):
        raise Violation('%s changed the factors' % what)
    if fault is not None:
        W = World(seed=sc['seed'], poison=sc['poison'])
        r = call(W, what, fn, *args)
    r = np.asarray(r)
    got = (np.asarray(r, dtype=float) + 1) / 2 if how == 'slow fuzzy' else r
    if r.shape != want.shape or not close(np.asarray(got, dtype=float), np.asarray(want, dtype=float), 1e-6):
        raise Violation('%s differs from the logical definition' % what)
    st.add('generated')
    W.log(r)
    st.world(W)


def outputs_op(rng):
    o = dict(op='outputs', tech=[[rng.choice(TECH), rng.random() < .3, rng.random() < .8]
                                 for _ in range(4)])
    if rng.random() < .5:
        o['fault'] = rng.choice([dict(kind='alloc', at=rng.randint(1, 12)),
                                 dict(kind='line', file='_numba', at=rng.choice([3, 40, 200]))])
    return o


def freeze(m):
    """everything observable about a machine, as copies"""
    s = {}
    for k, x in enumerate(m.members + m.lbdas):
        s['value %d' % k] = np.array(x.val, copy=True)
        s['fixed %d' % k] = bool(x.fixed)
        t = getattr(x, 'trace', None)
        if t is not None:
            s['trace %d' % k] = np.array(t, copy=True)
        a = x.mean()
        s['mean %d' % k] = np.array(a, copy=True)
        if hasattr(x, 'fixed_entries'):
            s['marks %d' % k] = np.array(x.fixed_entries, copy=True)
            s['prior %d' % k] = x.bernoulli_prior
        else:
            s['beta %d' % k] = tuple(x.beta_prior)
    for k, l in enumerate(m.layers):
        s['model %d' % k] = l.model
        s['inversion %d' % k] = (l.invert_data, l.invert_factors)
        s['size %d' % k] = l.size
    return s


def unchanged(a, b, what):
    for k in a:
        if k not in b:
            raise Violation('%s removed %s' % (what, k))
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            ok = same(x, y) and x.dtype == np.asarray(y).dtype
        else:
            ok = x == y
        if not ok:
            raise Violation('%s changed %s' % (what, k))


class Expect:
    def __init__(self, name, lay):
        self.name, self.lay = name, lay
        self.fi = bool(getattr(lay, 'invert_factors', False))
        self.di = bool(getattr(lay, 'invert_data', False))

    def det(self, F):
        """probability of a one (0/1) of the product"""
        F = [np.where(np.asarray(f) > 0, 1, -1) for f in F]
        if self.fi:
            F = [-f for f in F]
        o = ref.product(self.name, F)
        return (1 + (-o if self.di else o)) / 2

    def prob(self, A):
        P = [(np.asarray(a, dtype=float) + 1) / 2 for a in A]
        if self.fi:
            P = [1 - p for p in P]
        o = ref.fuzzy(self.name, P)
        return 1 - o if self.di else o


def candidates(lay, name, tech, noisy, info):
    """admissible outputs (before map_to_probabilities=False)"""
    fs = lay.factors
    A = [np.asarray(f.mean(), dtype=float) for f in fs]
    V = [f.val for f in fs]
    n = info['n'].get(id(lay.factors[0]), 0)
    maxm = lay.model == 'MAX-AND'
    if lay.model == 'qL-AND':
        if tech != 'point_estimate':
            return None
        cnt = (V[0] == 1).astype(int) @ (V[1] == 1).astype(int).T
        o = (cnt >= np.asarray(lay.q.val, dtype=int)).astype(float)
        p = ref.expit(np.asarray(lay.lbda.mean(), dtype=float)) if noisy else 1.0
        return [o * p + (1 - o) * (1 - p)]
    E = Expect(name, lay)
    out = []
    lm = np.asarray(lay.lbda.mean(), dtype=float)
    lv = np.asarray(lay.lbda.val, dtype=float)
    if tech == 'point_estimate':
        out.append(ref.max_and(V, lv) if maxm else E.det(V))
    elif tech == 'factor_map':
        if any(np.any(a == 0) for a in A):
            return None
        S = [np.where(a > 0, 1, -1) for a in A]
        if maxm:
            out += [ref.max_and(S, lv), ref.max_and(S, lm)]
        else:
            out.append(E.det(S))
    elif tech in ('factor_mean', 'factor_mean_old'):
        if maxm:
            if tech == 'factor_mean_old':
                return None
            out.append(ref.max_and_fuzzy((A[0] + 1) / 2, (A[1] + 1) / 2, lm))
        else:
            out.append(E.prob(A))
    else:
        # averaged over samples; an aborted run recorded an unknown number
        if info['aborted'] and (maxm or info['midline']):
            return None          # members may have recorded different numbers
        most = info['most']
        counts = range(0, most + 1) if info['aborted'] else [most]
        for j in counts:
            tot = 0.0
            J = max(j, 1)
            for t in range(J):
                F = []
                for f in fs:
                    if id(f) in info['sampled'] and j > 0:
                        F.append(np.asarray(f.trace)[t])
                    else:
                        F.append(f.val)
                if maxm:
                    if id(lay.lbda) in info['sampled'] and j > 0:
                        tot = tot + ref.max_and(F, np.asarray(lay.lbda.trace)[t])
                    else:
                        tot = tot + ref.max_and(F, lv)
                else:
                    w = max(f.shape[1] for f in F)
                    if any(f.shape[1] != w for f in F):
                        return None
                    tot = tot + E.det(F)
            out.append(tot / J)
    if noisy and not maxm:
        p = ref.expit(lm)
        out = [o * p + (1 - o) * (1 - p) for o in out]
    return out


def run(sc, st):
    if sc.get('kind') == 'reconstruct':
        return reconstruct(sc, st)
    if sc.get('kind') == 'generate':
        return generate(sc, st)
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    X = np.array(spec['data']['val'], dtype=np.int8)
    names = [l['model'] for l in spec['layers']]
    if len(layers) == 1 and spec['kind'] in ('2d', '3d') and not spec['data'].get('by'):
        want = -X if layers[0].invert_data else X
        if not same(data.val, want):
            raise Violation('data of model %s is not the %s data' % (
                names[0], 'inverted' if layers[0].invert_data else 'given'))
    info = dict(sampled=set(), aborted=False, n={}, most=0)
    for r, op in enumerate(sc['ops']):
        if op['op'] == 'run':
            run_op(sc, m, r, op, info, st)
        elif op['op'] == 'refix':
            if spec['kind'] != 'ibp':
                rng = random.Random(op['seed'])
                for x in m.members + m.lbdas:
                    if x is not data and x not in m.matrices and rng.random() < .5:
                        x.fixed = not x.fixed
        elif op['op'] == 'map':
            if spec['kind'] == 'ibp':
                continue
            for f in [f for l in layers for f in l.factors]:
                if f.fixed:
                    continue
                a = np.asarray(f.mean(), dtype=float)
                call(World(seed=1), 'set_to_map', f.set_to_map)
                v = np.asarray(f.val)
                if v.shape == a.shape and np.any((v != np.sign(a)) & (a != 0)):
                    raise Violation('set_to_map did not set the signs of the averages')
        else:
            outputs(sc, m, layers, names, r, op, info, st)


def run_op(sc, m, r, op, info, st):
    info['raw'] = {}
    mats = [x for x in m.members if not x.fixed]
    lbs = [p for p in m.lbdas if not p.fixed]
    W = World(seed=sc['seed'] + 1 + r, poison=op['poison'], fault=op.get('fault'))
    S = {id(x): [] for x in m.members + m.lbdas}
    cnt = [0]

    def after(obj):
        if any(obj is x for x in mats):
            cnt[0] += 1
            if cnt[0] % len(mats) == 0:
                for x in mats:
                    S[id(x)].append(np.array(x.val, copy=True))
        elif id(obj) in S:
            S[id(obj)].append(np.array(obj.val, copy=True))
    W.hooks_after.append(after)
    _, fault = guarded(W, 'run %d' % r, m.infer, **rargs(op))
    st.add('sweeps', W.count['update'])
    info['sampled'] = {id(x) for x in mats + lbs}
    info['aborted'] = fault is not None
    info['most'] = op['no_samples']
    info['midline'] = op.get('fault', {}).get('kind') == 'line'
    if fault is not None:
        st.add('aborted_runs')
        if sc['spec']['kind'] != 'ibp':
            if W.count['update'] or not S:
                aborted_averages(m, S, 'run %d' % r)
        # samples recorded before the abort are an upper bound only
        info['most'] = min([op['no_samples']] + [len(np.asarray(x.trace)) if hasattr(x, 'trace') else 0
                                                 for x in mats])
    else:
        for k, x in enumerate(m.members + m.lbdas):
            a = np.asarray(x.mean(), dtype=float)
            if id(x) in info['sampled'] and op['no_samples']:
                want = np.asarray(x.trace, dtype=float).mean(axis=0)
            else:
                want = np.asarray(x.val, dtype=float)
            if not close(a, want, 1e-5):
                raise Violation('run %d: average of member %d is not the mean of its %s' % (
                    r, k, 'samples' if id(x) in info['sampled'] else 'current state'))
            st.add('averages')
    W.log(*[x.val for x in m.members], *[np.asarray(p.val) for p in m.lbdas])
    st.world(W)


def outputs(sc, m, layers, names, r, op, info, st):
    before = freeze(m)
    for k, x in enumerate(m.members + m.lbdas):
        # an average of samples belongs to the caller, who may work on it
        a = x.mean()
        if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable and not np.shares_memory(a, x.val):
            a[...] = 7
            st.add('averages_overwritten')
    unchanged(before, freeze(m), 'work on an average that was returned')
    for k, lay in enumerate(layers):
        raw = info.setdefault('raw', {}).setdefault(k, [])
        for tech, noisy, mapped in op['tech']:
            what = '%s output%s of %s' % (tech, ' with noise' if noisy else '', names[k])
            if tech == 'factor_mean_old' and lay.model in ('MAX-AND', 'qL-AND'):
                continue
            if op.get('fault'):
                W = World(seed=sc['seed'], fault=op['fault'])
                guarded(W, what, lay.output, tech, noisy_emission=noisy, map_to_probabilities=mapped)
                st.world(W)
                unchanged(before, freeze(m), what + (' failing' if W.fired else ''))
                st.add('outputs_failed' if W.fired else 'outputs')
            W = World(seed=sc['seed'])
            got = call(W, what, lay.output, tech, noisy_emission=noisy, map_to_probabilities=mapped)
            if isinstance(got, np.ndarray) and got.ndim and got.flags.writeable and (k + r) % 2:
                # so does an output
                got[...] = 7
                unchanged(before, freeze(m), 'work on an output that was returned')
                got = call(World(seed=sc['seed']), what, lay.output, tech, noisy_emission=noisy,
                           map_to_probabilities=mapped)
            got = np.array(got, dtype=float)
            if not mapped:
                raw.append((False, got))
                got = (got + 1) / 2
            raw.append((True, got))
            unchanged(before, freeze(m), what)
            cand = candidates(lay, names[k], tech, noisy, info)
            if cand is None:
                st.add('outputs_not_judged')
                continue
            if not any(close(got, c, 2e-5) for c in cand):
                raise Violation('%s: got %s, expected %s' % (
                    what, np.round(got, 4).tolist(), np.round(cand[0], 4).tolist()))
            st.add('outputs_compared')
            W.log(got)
            st.world(W)
        # the lazy way: some output computed since the last run, or the one asked for
        if any(t == 'factor_mean_old' for t, _, _ in op['tech']):
            continue
        tech, noisy, mapped = op['tech'][0]
        W = World(seed=sc['seed'])
        lz = np.asarray(call(W, 'lazy output of ' + names[k], lay.output, tech, noisy_emission=noisy,
                             map_to_probabilities=mapped, lazy=True), dtype=float)
        unchanged(before, freeze(m), 'lazy output')
        # (probabilities if these are asked for)
        if not any(close(lz, g, 2e-5) for is_p, g in raw if is_p or not mapped):
            raise Violation('lazy output of %s: got %s, which is none of the last outputs, e.g. %s' % (
                names[k], np.round(lz, 4).tolist(), np.round(raw[-1][1], 4).tolist()))
        st.add('lazy_outputs')
