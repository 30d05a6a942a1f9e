"""C14 latent-dimension clean-up removes only redundancy and keeps alignment"""
import random
import numpy as np
from .. import ref
from ..common import (gen_machine, gen_run, gen_rates, gen_fault, rargs, build, call, guarded, reported,
                      check_valid, Violation, same, mask, arr, pm, KINDS)
from ..seams import World

ID = 'C14'
RUNS = dict(quick=30000, thorough=3000000)
RULE = ('one evaluation = either one clean-up of a layer with planted redundancy (inactive, duplicate and partially '
        'duplicate dimensions, marks, rates; possibly with the n-th allocation failing), judged against the set '
        'of admissible survivors, or one to three runs with automatic clean-up whose state at the end of each '
        'converged burn-in is judged; non-trivial = distinct event log')
MEASURE = 'digest of states before and after the clean-up, or of the runs'
ASSUMPTIONS = ['layers above have two factors',
               'of several mutually equal dimensions at least one that each removed one equals must survive']


def plant(rng, cols, K):
    """columns (list of per-factor lists) with redundancy"""
    out = [c for c in cols]
    for _ in range(rng.randint(0, 5)):
        i = rng.randrange(len(out) + 1)
        x = rng.random()
        c = [list(v) for v in rng.choice(cols)]
        d = [list(v) for v in rng.choice(cols)]
        if x < .35:
            k = rng.randrange(K)
            c[k] = [-1] * len(c[k])
        elif x < .5:
            c = [[-1] * len(v) for v in c]
        elif x < .75:
            pass
        else:
            k = rng.randrange(K)
            c = [list(v) for v in d]
            for j in range(K):
                if j != k:
                    c[j] = [rng.choice([-1, 1]) for _ in c[j]]
        out.insert(i, c)
    return out


def above(rng, shape, L):
    """layers on the factors of the cleaned layer, and on theirs"""
    out, sizes, free = [], [[(k, L) for k in shape]], [[0, 0], [0, 1]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = rng.choice(free)
        free.remove(c)
        N, D = sizes[c[0]][c[1]]
        M = rng.randint(1, 3)
        fs = [dict(val=pm(rng, (k, M), .5)) for k in (N, D)]
        for f, k in zip(fs, (N, D)):
            if rng.random() < .3:
                f['fixed_entries'] = mask(rng, (k, M), .3)
            elif rng.random() < .1:
                f['fixed'] = True
        out.append(dict(model=rng.choice(ref.FAMILIES), L=M, child=list(c), factors=fs,
                        lbda=round(rng.uniform(0, 3), 4)))
        sizes.append([(N, M), (D, M)])
        n = len(sizes) - 1
        free += [[n, 0], [n, 1]]
    return out


def gen(rng, tier, i):
    three = rng.random() < .3
    K = 3 if three else 2
    maxm = (not three) and rng.random() < .35
    model = 'MAX-AND' if maxm else rng.choice(ref.FAMILIES)
    shape = [rng.randint(1, 5 if K == 2 else 3) for _ in range(K)]
    L0 = rng.randint(1, 4)
    cols = [[pm(rng, (k,), .5) for k in shape] for _ in range(L0)]
    cols = plant(rng, cols, K)
    L = len(cols)
    lay = dict(model=model, L=L, factors=[
        dict(val=[[cols[l][k][n] for l in range(L)] for n in range(shape[k])])
        for k in range(K)])
    marked = rng.random() < .5
    if marked:
        for k, f in enumerate(lay['factors']):
            f['fixed_entries'] = mask(rng, (shape[k], L), rng.choice([.1, .3, .6]))
    lay['lbda'] = gen_rates(rng, L) if maxm else round(rng.uniform(0, 3), 4)
    d = pm(rng, shape, .5)
    layers = [lay]
    if K == 2 and not maxm and rng.random() < .35:
        layers += above(rng, shape, L)
    sc = dict(spec=dict(kind='3d' if three else '2d', data=dict(val=d, fixed=True), layers=layers),
              seed=rng.randrange(10 ** 6))
    if rng.random() < .5:
        sc['mode'] = 'direct'
        if rng.random() < .3:
            sc['layer'] = rng.randrange(len(layers))
        sc['reset'] = rng.random() < .25
        if rng.random() < .5:
            sc['fault'] = dict(kind='alloc', at=rng.randint(1, rng.choice([2, 4, 10, 20])))
    else:
        sc['mode'] = 'run'
        lay[rng.choice(['auto_clean', 'auto_clean', 'auto_reset'])] = True
        for l in layers[1:]:
            if rng.random() < .3:
                l[rng.choice(['auto_clean', 'auto_clean', 'auto_reset'])] = True
        ops = []
        for _ in range(rng.randint(1, 3)):
            o = gen_run(rng, convergence_window=rng.choice([2, 3, 4]),
                        convergence_eps=rng.choice([.05, .2, .6]),
                        burn_in_max=rng.choice([5, 20, 40]), no_samples=rng.choice([0, 1, 2]))
            if rng.random() < .35:
                o['fault'] = gen_fault(rng, sc['spec'], o, ('alloc', 'alloc', 'draw', 'update', 'write'))
            ops.append(o)
        sc['ops'] = ops
    return sc


def columns(lay):
    """one hashable record per latent dimension"""
    V = [np.array(f.val, copy=True) for f in lay.factors]
    L = V[0].shape[1]
    F = [np.array(f.fixed_entries, copy=True) for f in lay.factors]
    r = np.array(lay.lbda.val, copy=True)
    out = []
    for l in range(L):
        rec = [tuple(v[:, l].tolist()) for v in V]
        mk = [tuple((f[:, l] == 1).tolist()) for f in F]
        rate = float(r[l]) if lay.model == 'MAX-AND' else None
        # rows of the factors above that belong to this dimension
        up = tuple((tuple(x.val[l].tolist()), tuple((x.fixed_entries[l] == 1).tolist()))
                   for f in lay.factors for x in by_column(f) if l < len(x.val))
        out.append((tuple(rec), tuple(mk), (rate, up)))
    return out


def by_column(f):
    """factors with one row per column of f"""
    out = []
    for p in f.parents:
        out.append(p.factors[1])
        todo = [p.factors[1]]
        while todo:
            x = todo.pop()
            for q in x.parents:
                out.append(q.factors[0])
                todo.append(q.factors[0])
    return out


def redundant(cols):
    """pairs and inactive dimensions: reasons of redundancy"""
    for i, (c, _, _) in enumerate(cols):
        for k, v in enumerate(c):
            if all(x == -1 for x in v):
                return 'dimension %d is inactive in factor %d' % (i, k)
        for j in range(i):
            for k, v in enumerate(c):
                if v == cols[j][0][k]:
                    return 'dimensions %d and %d are equal in factor %d' % (j, i, k)
    return None


def consistent(lay, what):
    for p in (p for f in lay.factors for p in f.parents):
        consistent(p, what)
    L = lay.factors[0].val.shape[1]
    for k, f in enumerate(lay.factors):
        if f.val.shape[1] != L or f.val.dtype != np.int8:
            raise Violation('%s: factors have %s' % (what, [(g.val.shape, str(g.val.dtype)) for g in lay.factors]))
        if f.fixed_entries.shape != f.val.shape:
            raise Violation('%s: factor %d has shape %s and marks of shape %s' % (
                what, k, f.val.shape, f.fixed_entries.shape))
        for x in by_column(f):
            if x.val.shape[0] != L or x.fixed_entries.shape != x.val.shape:
                raise Violation('%s: %d dimensions, a layer above has %s values and %s marks for them' % (
                    what, L, x.val.shape, x.fixed_entries.shape))
    if lay.size != L:
        raise Violation('%s: layer reports size %s, factors have %s' % (what, lay.size, L))
    if lay.model == 'MAX-AND' and np.shape(lay.lbda.val) != (L + 1,):
        raise Violation('%s: %s rates for %d dimensions' % (what, np.shape(lay.lbda.val), L))


def survivors_ok(before, after):
    """is there an admissible choice of removed dimensions?"""
    n, k = len(before), len(after)
    if k > n:
        return 'the layer grew'
    inactive = [any(all(x == -1 for x in v) for v in c[0]) for c in before]

    def eq(a, b):
        return any(x == y for x, y in zip(a[0], b[0]))
    sols = []

    def rec(i, j, kept):
        if sols or len(kept) > k:
            return
        if i == n:
            if j == k:
                for r in range(n):
                    if r not in kept and not inactive[r] and \
                            not any(eq(before[r], before[s]) for s in kept):
                        return
                sols.append(kept)
            return
        if j < k and before[i] == after[j]:
            rec(i + 1, j + 1, kept + [i])
        if n - i - 1 >= k - j:
            rec(i + 1, j, kept)
    rec(0, 0, [])
    if sols:
        return None
    # is it alignment or over-removal?
    j = 0
    for c in before:
        if j < k and c == after[j]:
            j += 1
    if j == k:
        return 'a dimension was removed that is neither inactive nor equal to a surviving one'
    return 'the surviving dimensions did not keep their values, order, marks or rates'


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    lay = layers[0]
    if sc['mode'] == 'direct':
        return direct(sc, m, layers[min(sc.get('layer', 0), len(layers) - 1)], st)
    for r, op in enumerate(sc['ops']):
        one_run(sc, m, lay, r, op, st)


def direct(sc, m, lay, st):
    import lom.auxiliary_functions as aux
    before = columns(lay)
    base = float(np.asarray(lay.lbda.val).reshape(-1)[-1])
    W = World(seed=sc['seed'] + 1, fault=sc.get('fault'))
    what = 'clean-up (%s)' % ('reset' if sc['reset'] else 'remove')
    ret, fault = guarded(W, what, aux.clean_up_codes, lay, sc['reset'], not sc['reset'])
    if fault:
        what += ' with failing allocation %s' % sc['fault']['at']
    consistent(lay, what)
    after = columns(lay)
    W.log(before, after, ret)
    st.world(W)
    st.add('cleanups')
    st.add('dimensions_removed', len(before) - len(after))
    if not all(v in (-1, 1) for c in after for f in c[0] for v in f):
        raise Violation('%s: factors hold other values than -1 and 1' % what)
    if sc['reset']:
        if [c[1] for c in after] != [c[1] for c in before]:
            raise Violation('%s changed the fixed marks' % what)
        for b, a in zip(before, after):
            for bv, av, mk in zip(b[0], a[0], b[1]):
                if any(x != y for x, y, z in zip(bv, av, mk) if z):
                    raise Violation('%s changed fixed entries' % what)
        reset_ok(what, before, after, ret, fault)
        if redundant(before) is None and (ret or after != before):
            raise Violation('%s acted on a layer without redundancy' % what)
        return
    why = survivors_ok(before, after)
    if why:
        raise Violation('%s: %s (%d dimensions before, %d after)' % (what, why, len(before), len(after)))
    if abs(float(np.asarray(lay.lbda.val).reshape(-1)[-1]) - base) > 1e-12:
        raise Violation('%s changed the %s' % (what, 'base rate' if lay.model == 'MAX-AND' else 'dispersion'))
    if fault is None:
        left = redundant(after)
        if left:
            raise Violation('%s left redundancy: %s' % (what, left))
        if bool(ret) != (len(after) < len(before)):
            raise Violation('%s reported %s although %d of %d dimensions were removed' % (
                what, ret, len(before) - len(after), len(before)))


def blank(c):
    return (tuple(tuple(x if z else -1 for x, z in zip(v, mk)) for v, mk in zip(c[0], c[1])),) + tuple(c[1:])


def reset_ok(what, before, after, ret, fault):
    """every dimension is unchanged or blanked; all redundancy is blanked, nothing else"""
    if len(before) != len(after):
        raise Violation('%s changed the number of dimensions' % what)
    off = [blank(b) == a for b, a in zip(before, after)]
    marked = any(any(mk) for c in before for mk in c[1])
    for i, (b, a) in enumerate(zip(before, after)):
        if a[2] != b[2]:
            raise Violation('%s changed the rate (or a layer above) of dimension %d' % (what, i))
        if fault is None and a != b and not off[i]:
            raise Violation('%s changed dimension %d other than to all unmarked entries -1' % (what, i))
        if any(x not in (y, z) for x, y, z in zip(a[0], b[0], blank(b)[0])):
            raise Violation('%s changed a factor column of dimension %d other than to -1' % (what, i))
        if a != b and not marked:
            if not (any(all(x == -1 for x in v) for v in b[0]) or
                    any(any(x == y for x, y in zip(b[0], d[0])) for j, d in enumerate(after)
                        if j != i and d == before[j])):
                raise Violation('%s changed dimension %d, which is neither inactive nor equal to an '
                                'untouched one' % (what, i))
    if fault is not None:
        return
    for i, c in enumerate(after):
        if not off[i] and any(all(x == -1 for x in v) for v in c[0]):
            raise Violation('%s left dimension %d, inactive in one factor, as it was' % (what, i))
        for j in range(i):
            if not off[i] and not off[j] and any(x == y for x, y in zip(c[0], after[j][0])):
                raise Violation('%s left dimensions %d and %d, equal in one factor' % (what, j, i))
    if bool(ret) != (redundant(before) is not None) and not marked:
        raise Violation('%s returned %s, the layer had %s redundancy' % (
            what, ret, 'some' if redundant(before) else 'no'))


def one_run(sc, m, lay, r, op, st):
    what = 'run %d' % r
    mats = [x for x in m.members if not x.fixed]
    starts = []
    cnt = [0]

    def before(obj):
        if any(obj is x for x in mats):
            if cnt[0] % len(mats) == 0:
                consistent(lay, what)
                starts.append(columns(lay))
            cnt[0] += 1
    W = World(seed=sc['seed'] + 1 + r, fault=op.get('fault'), budget=400000)
    W.hooks_before.append(before)
    _, fault = guarded(W, what, m.infer, **rargs(op))
    consistent(lay, what + (' after fault' if fault else ''))
    check_valid(m, what)
    st.add('sweeps', W.count['update'])
    W.log(columns(lay))
    st.world(W)
    if fault is not None:
        st.add('aborted_runs')
        return
    T = reported(m, what)
    top = max(op['burn_in_min'], op['burn_in_max'])
    L = lay.factors[0].val.shape[1]
    for k, f in enumerate(lay.factors):
        if np.shape(f.trace)[0] != op['no_samples'] or np.shape(f.trace)[2] != L:
            raise Violation('%s: samples of shape %s for %d dimensions' % (what, np.shape(f.trace), L))
    if (T < top or lay.auto_reset) and starts:
        state = columns(lay) if op['no_samples'] == 0 else \
            (starts[T] if T < len(starts) else None)
        if state is not None:
            left = redundant(state)
            if left:
                raise Violation('%s: burn-in ended but %s' % (what, left))
            st.add('converged_burn_ins')
