"""C17 hold-out splits and noise touch only what they may"""
import math
import random
import numpy as np
from ..common import call, guarded, Violation, same, pm0, lom_frames, describe
from .. import seams
from ..seams import World, FAULTS

ID = 'C17'
RUNS = dict(quick=80000, thorough=8000000)
RULE = ('one evaluation = one tensor (2- to 4-way, with missing values, several types and memory layouts) that is '
        'split or perturbed under random, extreme and constant draws, checked cell by cell; noise frequencies are '
        'measured as the set of draws for which an entry flips; non-trivial = distinct event log')
MEASURE = 'digest of draws and resulting tensors'
ASSUMPTIONS = ['data holds -1, 0 (missing) and 1, Boolean tensors for the Boolean noise function']
STUB = ['random draws']

ONE = 1.0 - 2.0 ** -53
KINDS = ('split', 'split', 'balanced', 'balanced', 'pairs', 'old', 'noise2d', 'noise2d', 'biased', 'biased',
         'noise3d', 'tensor', 'freq', 'orm')


def gen(rng, tier, i):
    kind = rng.choice(KINDS)
    K = {'noise2d': 2, 'biased': 2, 'pairs': 2, 'freq': 2, 'orm': 2, 'noise3d': 3, 'tensor': 3}.get(
        kind, rng.choice([2, 2, 3, 4]))
    big = {2: 12, 3: 6, 4: 4}[K]
    shape = [rng.randint(1, big) for _ in range(K)]
    if kind == 'old' and rng.random() < .5:
        shape = [rng.randint(2, 5) for _ in range(K)]
    sc = dict(kind=kind, shape=shape, seed=rng.randrange(10 ** 6),
              dtype=rng.choice(['int8', 'int8', 'int8', 'int64', 'float64']),
              layout=rng.choice(['C', 'C', 'F', 'strided', 'readonly']),
              x=pm0(rng, shape, rng.choice([.1, .5, .5, .9, 1.0]), rng.choice([0, 0, .1, .5, .9])),
              p_extreme=rng.choice([0, 0, .5]), poison=rng.choice([None, 'big', 'rand']))
    if kind == 'old':
        sc['dtype'] = 'int8'
    sc['p'] = rng.choice([0, 0.01, .05, .1, .1, .25, .5, .7, .9, 1.0, round(rng.random(), 3)])
    sc['q'] = rng.choice([0, .02, .3, .5, 1.0, round(rng.random(), 3)])
    sc['nseed'] = rng.choice([None, None, 0, 1, rng.randrange(10 ** 6)])
    sc['u'] = round(rng.random(), 6)
    if rng.random() < .25:
        sc['fault'] = rng.choice([dict(kind='alloc', at=rng.randint(1, 6)),
                                  dict(kind='draw', at=rng.randint(1, 30)),
                                  dict(kind='line', at=rng.randint(1, 60))])
    return sc


def shrink(sc):
    if sc['kind'] in ('tensor', 'orm'):
        return
    x = sc['x']
    for n in range(len(x)):
        if len(x) > 1:
            y = x[:n] + x[n + 1:]
            yield dict(sc, x=y, shape=[len(y)] + sc['shape'][1:])
    for k, d in (('fault', None), ('p_extreme', 0), ('poison', None), ('layout', 'C'), ('dtype', 'int8')):
        if sc.get(k) not in (d, None):
            yield dict(sc, **{k: d})


def tensor(sc):
    X = np.array(sc['x'], dtype=sc['dtype']).reshape(sc['shape'])
    if sc['kind'] in ('noise3d', 'tensor'):
        X = X == 1
    if sc['layout'] == 'F':
        X = np.asfortranarray(X)
    elif sc['layout'] == 'strided':
        Y = np.zeros([2 * s for s in X.shape], dtype=X.dtype)
        Y[tuple(slice(0, 2 * s, 2) for s in X.shape)] = X
        X = Y[tuple(slice(0, 2 * s, 2) for s in X.shape)]
    elif sc['layout'] == 'readonly':
        X.flags.writeable = False
    return X


def world(sc, k=0, **o):
    a = dict(seed=sc['seed'] + 1000003 * k, p_extreme=sc['p_extreme'], poison=sc['poison'])
    a.update(o)
    return World(**a)


def attempt(W, fn, allowed, what):
    """value or ('raised', exception); exceptions only if allowed() says so"""
    try:
        with W:
            return fn(), None
    except FAULTS as e:
        return None, e
    except seams.NoProgress as e:
        raise Violation('%s makes no progress: %s' % (what, e))
    except Exception as e:
        if W.fired:
            return None, e
        if isinstance(e, (AssertionError, ValueError)) and allowed:
            return None, e
        if lom_frames(e):
            raise Violation('%s raised %s' % (what, describe(e)))
        raise


def intact(X, orig, what):
    if not (X.dtype == orig.dtype and X.shape == orig.shape and np.array_equal(X, orig)):
        raise Violation('%s changed its input' % what)


def check_split(sc, X, orig, r, balanced, what):
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Violation('%s returned %r' % (what, type(r)))
    T, M = np.asarray(r[0]), np.asarray(r[1])
    if T.shape != X.shape or M.shape != X.shape or M.dtype != bool:
        raise Violation('%s returned shapes %s and %s (%s)' % (what, T.shape, M.shape, M.dtype))
    if np.any(M & (orig == 0)):
        raise Violation('%s marks %d entries that were not observed' % (what, int(np.sum(M & (orig == 0)))))
    if np.any(T[M] != 0):
        raise Violation('%s left %d marked entries visible' % (what, int(np.sum(T[M] != 0))))
    if np.any(T[~M] != orig[~M]):
        raise Violation('%s changed %d entries that are not marked' % (what, int(np.sum(T[~M] != orig[~M]))))
    if balanced:
        a, b = int(np.sum(M & (orig == 1))), int(np.sum(M & (orig == -1)))
        if a != b:
            raise Violation('balanced %s hides %d positive and %d negative entries' % (what, a, b))
        S = int(np.sum(orig != 0)) * sc['p'] * .5
        if abs(a - S) > 1:
            raise Violation('balanced %s hides %d entries of each sign, %.1f were asked for' % (what, a, S))
    return T, M


def run(sc, st):
    import lom.experiments as ex
    import lom.auxiliary_functions as aux
    X = tensor(sc)
    orig = np.array(X, copy=True)
    kind = sc['kind']
    st.add('kind.' + kind)
    if kind in ('split', 'balanced', 'old'):
        if kind == 'old':
            fn = lambda x: ex.split_tensor_train_test_old(x, split=sc['p'])     # noqa: E731
            allowed = False
        else:
            fn = lambda x: ex.split_train_test(x, split=sc['p'], balanced=kind == 'balanced')  # noqa: E731
            obs = int(np.sum(orig != 0))
            if kind == 'split':
                allowed = obs == 0 or sc['p'] / (obs / orig.size) > 1 - 1e-9
            else:
                S = int(obs * sc['p'] * .5)
                least = min(int(np.sum(orig == 1)), int(np.sum(orig == -1)))
                allowed = least < S or least <= S / 2
        W = world(sc, fault=sc.get('fault'))
        r, e = attempt(W, lambda: fn(X), allowed, 'the split')
        st.world(W)
        intact(X, orig, 'the split' + (' (failing)' if e else ''))
        if W.fired or e:
            W = world(sc)
            r, e = attempt(W, lambda: fn(X), allowed, 'the split')
            if e:
                st.add('infeasible')
                return
        T, M = check_split(sc, X, orig, r, kind == 'balanced', 'the split')
        W.log(T, M)
        st.world(W)
        intact(X, orig, 'the split')
        if np.shares_memory(T, X):
            raise Violation('the training data shares memory with the input')
        if kind == 'split' and sc['p'] == 0 and M.any():
            raise Violation('a split of 0 hides entries')
        if kind == 'old':
            asked = orig.size * sc['p']
            if M.sum() > asked + 1 or np.all(orig) and M.sum() < asked - 1:
                raise Violation('the split hides %d of %d entries, %.1f were asked for' % (
                    M.sum(), orig.size, asked))
        # seeded global generator reproduces the split
        with world(sc, 1, p_extreme=0):
            np.random.seed(7)
            a = fn(X)
        with world(sc, 2, p_extreme=0):
            np.random.rand(3)
            np.random.seed(7)
            b = fn(X)
        if not (same(a[0], b[0]) and same(a[1], b[1])):
            raise Violation('the split differs between two calls after seeding the global generator')
        return
    if kind == 'pairs':
        has = -1 in orig
        base = orig if has else 2 * orig - 1
        k = int(orig.size * sc['p'] / 2)
        least = min(int(np.sum(base == 1)), int(np.sum(base == -1)))
        W = world(sc, fault=sc.get('fault'))
        T, e = attempt(W, lambda: aux.split_test_train(X, sc['p']), least < k, 'the split')
        intact(X, orig, 'the split')
        st.world(W)
        if e:
            return
        T = np.asarray(T)
        H = (T != base)
        if np.any(T[H] != 0) or T.shape != base.shape:
            raise Violation('the split changed entries other than hiding them')
        a, b = int(np.sum(H & (base == 1))), int(np.sum(H & (base == -1)))
        if a != b or abs(a - k) > 1:
            raise Violation('the split hides %d positive and %d negative entries, %d each were asked for' % (a, b, k))
        return
    if kind == 'orm':
        L = 1 + sc['seed'] % 3
        N, D = 5 + sc['seed'] % 7, 5 + sc['seed'] % 11
        W = world(sc, p_extreme=0)
        U, Z, T = [np.asarray(v) for v in call(W, 'generate_orm_product', aux.generate_orm_product, N, D, L)]
        if Z.shape != (N, L) or U.shape != (D, L) or not all(np.all((v == 1) | (v == -1)) for v in (U, Z, T)):
            raise Violation('generated factors and product have shapes %s, %s, %s or other values than -1 and 1' % (
                U.shape, Z.shape, T.shape))
        want = np.einsum('nl,dl->nd', (Z == 1).astype(int), (U == 1).astype(int)) > 0
        if not np.array_equal(T == 1, want):
            raise Violation('generated matrix is not the Boolean product of its factors')
        for v in (U, Z):
            for a in range(L):
                for b in range(L):
                    if a != b and np.all(v[v[:, a] == 1, b] == 1):
                        raise Violation('dimension %d of a generated factor is contained in dimension %d' % (a, b))
        W.log(U, Z)
        st.world(W)
        return
    if kind == 'tensor':
        L = 1 + sc['seed'] % 4
        dens = .1 + .8 * sc['q'] * .99
        W = world(sc)
        r = call(W, 'generate_random_tensor', ex.generate_random_tensor, L, sc['shape'], noise=sc['p'], density=dens)
        N, T, F, _ = r
        F = [np.asarray(f) == 1 for f in F]
        want = np.einsum('nl,dl,ml->ndm', *[f.astype(int) for f in F]) > 0
        if [f.shape for f in F] != [(s, L) for s in sc['shape']] or not np.array_equal(np.asarray(T) == 1, want):
            raise Violation('generated tensor is not the Boolean product of its factors')
        N = np.asarray(N)
        if N.shape != want.shape or not np.all((N == 0) | (N == 1)):
            raise Violation('noisy tensor is not Boolean')
        if sc['p'] == 0 and not np.array_equal(N == 1, want):
            raise Violation('noise of probability 0 changed the generated tensor')
        if sc['p'] == 1 and np.any((N == 1) == want):
            raise Violation('noise of probability 1 kept entries of the generated tensor')
        W.log(N, want)
        st.world(W)
        # expected density of the product is the one asked for
        if 0 < dens < 1:
            pf = (1 - (1 - dens) ** (1.0 / L)) ** (1.0 / 3)

            def on(u):
                W = World(seed=sc['seed'], u=u)
                r = call(W, 'generate_random_tensor', ex.generate_random_tensor, L, sc['shape'], noise=0, density=dens)
                return np.concatenate([(np.asarray(f) == 1).ravel() for f in r[2]])
            a, b = on(0.0), on(ONE)
            if not a.any() and b.all() or a.all() and not b.any():
                up = bool(b.all())
                t = 1 - pf if up else pf
                for u in (t * (1 - 1e-6), t * (1 + 1e-6)):
                    if not 0 <= u < 1:
                        continue
                    f = on(u)
                    want = (u > t) == up
                    if f.any() != want or f.all() != want:
                        raise Violation('factors of a tensor of expected density %s with %d dimensions are on with '
                                        'another probability than %s' % (dens, L, pf))
                st.add('densities')
        def noisy(u):
            W = World(seed=sc['seed'], u=u)
            r = call(W, 'generate_random_tensor', ex.generate_random_tensor, L, sc['shape'], noise=sc['p'], density=dens)
            return np.asarray(r[0]) != np.asarray(r[1])
        if 0 < sc['p'] < 1:
            a, b = noisy(0.0), noisy(ONE)
            if a.all() and not b.any() or b.all() and not a.any():
                t = sc['p'] if a.all() else 1 - sc['p']
                for u in (t * (1 - 1e-6), t * (1 + 1e-6)):
                    f = noisy(min(u, ONE))
                    want = (u < t) == bool(a.all())
                    if f.any() != want or f.all() != want:
                        raise Violation('noise of generated tensors has another probability than %s' % sc['p'])
        return
    # noise
    seeded = sc['nseed'] is not None and kind != 'noise3d'
    if kind == 'noise3d':
        def fn(seed=None, p=sc['p'], q=None, x=X):
            return aux.add_bernoulli_noise(x, p)
    elif kind == 'biased':
        def fn(seed=None, p=sc['p'], q=sc['q'], x=X):
            return aux.add_bernoulli_noise_2d_biased(x, p, q, seed=seed)
    else:
        def fn(seed=None, p=sc['p'], q=None, x=X):
            return aux.add_bernoulli_noise_2d(x, p, seed=seed)
    pos = orig == 1
    neg = (orig == 0) if kind == 'noise3d' else orig == -1

    def check(Y, p, q, what):
        Y = np.asarray(Y)
        q = p if q is None else q
        if Y.shape != orig.shape:
            raise Violation('%s changed the shape' % what)
        flip = ~orig if kind == 'noise3d' else -orig
        if np.any((Y != orig) & (Y != flip)):
            raise Violation('%s produced values other than flipped signs: %s' % (what, np.unique(Y).tolist()))
        for m, pr, nm in ((pos, p, 'positive'), (neg, q, 'negative')):
            c = int(np.sum(Y[m] != orig[m]))
            if pr == 0 and c:
                raise Violation('%s flips %d %s entries at probability 0' % (what, c, nm))
            if pr == 1 and c != int(np.sum(m)):
                raise Violation('%s keeps %d %s entries at probability 1' % (what, int(np.sum(m)) - c, nm))
        return Y

    q = sc['q'] if kind == 'biased' else None
    if kind == 'freq':
        return (frequency if sc['seed'] % 4 < 2 else split_frequency)(sc, st, aux)
    W = world(sc, fault=sc.get('fault'))
    Y, e = attempt(W, lambda: fn(sc['nseed']), False, 'adding noise')
    intact(X, orig, 'adding noise')
    st.world(W)
    if e is None:
        Y = check(Y, sc['p'], q, 'adding noise')
        W.log(Y)
        st.world(W)
        if Y.size and np.shares_memory(Y, X):
            raise Violation('the noisy data shares memory with the input')
    if seeded:
        res = []
        for k in range(2):
            with world(sc, 3 + k, p_extreme=0):
                np.random.rand(k * 5)
                res.append(np.asarray(fn(sc['nseed'])))
        if not same(res[0], res[1]):
            raise Violation('noise with explicit seed %s differs between two calls' % sc['nseed'])
        for k in range(2):
            # the seam is not needed: generator of numpy itself
            np.random.seed(k)
            with quiet():
                res[k] = np.asarray(fn(sc['nseed']))
        if not same(res[0], res[1]):
            raise Violation('noise with explicit seed %s differs between two calls' % sc['nseed'])
    # constant draws: all entries with the same probability share their fate
    def at(u):
        W = World(seed=sc['seed'], u=u)
        return check(call(W, 'adding noise', fn, None), sc['p'], q, 'adding noise')

    lo, hi = at(0.0), at(ONE)
    for m, pr in ((pos, sc['p']), (neg, sc['p'] if q is None else q)):
        if not m.any() or not 0 < pr < 1:
            continue
        a, b = lo[m] != orig[m], hi[m] != orig[m]
        if a.all() and not b.any():
            up = False
        elif b.all() and not a.any():
            up = True
        else:
            continue                    # not driven by one uniform draw each; see frequency
        for u in (pr * (1 - 1e-6), min(pr * (1 + 1e-6), ONE), sc['u']):
            f = at(1 - u if up else u)[m] != orig[m]
            want = u < pr
            if abs(u - pr) < 1e-9:
                continue
            if f.any() != want or f.all() != want:
                raise Violation('noise of probability %s flips %d of %d entries although their draws are %s' % (
                    pr, int(f.sum()), f.size, 'below' if want else 'above'))
        st.add('thresholds')


class quiet:
    def __enter__(self):
        import io
        import sys
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.o


def frequency(sc, st, aux):
    """frequency over many draws, limit 6 standard deviations"""
    rng = np.random.RandomState(sc['seed'])
    N, D = 50, 60
    X = rng.choice(np.array([-1, 0, 1, 1], dtype=np.int8), size=(N, D))
    W = World(seed=sc['seed'])
    biased = sc['seed'] % 8 > 3
    p, q = sc['p'], sc['q'] if biased else sc['p']

    def fn():
        if biased:
            return aux.add_bernoulli_noise_2d_biased(X, p, q)
        return aux.add_bernoulli_noise_2d(X, p)
    Y = np.asarray(call(W, 'adding noise', fn))
    for v, pr in ((1, p), (-1, q)):
        for part, sel in (('all', X == v), ('even rows', (X == v) & (np.arange(N)[:, None] % 2 == 0)),
                          ('last columns', (X == v) & (np.arange(D)[None] >= D - 10))):
            n = int(sel.sum())
            f = int(np.sum(Y[sel] != X[sel]))
            sd = math.sqrt(max(n * pr * (1 - pr), 1e-12))
            if abs(f - n * pr) > 6 * sd + 1:
                raise Violation('noise of probability %s flips %d of %d entries (%s)' % (pr, f, n, part))
    W.log(Y)
    st.world(W)


def split_frequency(sc, st, aux):
    """every entry that may be hidden is hidden equally often, limit 6 standard deviations"""
    import lom.experiments as ex
    rng = np.random.RandomState(sc['seed'])
    kind = ('split', 'balanced', 'old', 'pairs')[sc['seed'] // 8 % 4]
    N, D = (12, 50) if kind == 'old' else (50, 60)
    miss = kind != 'pairs' and sc['seed'] % 3 > 0
    X = rng.choice(np.array([-1, 0 if miss else 1, 1, 1], dtype=np.int8), size=(N, D))
    obs, n1, n0 = [int(np.sum(x)) for x in (X != 0, X == 1, X == -1)]
    p = min(sc['p'], .9 * obs / X.size if kind == 'split' else .9 * 2 * min(n1, n0) / obs)
    # expected fraction of positive and negative entries hidden
    if kind == 'split':
        f1 = f0 = p * X.size / obs
    elif kind == 'old':
        f1 = f0 = int(p * X.size) / X.size
    else:
        f1, f0 = int(obs * p * .5) / n1, int(obs * p * .5) / n0
    W = World(seed=sc['seed'])
    fn = {'split': lambda: ex.split_train_test(X, split=p, balanced=False)[0],
          'balanced': lambda: ex.split_train_test(X, split=p, balanced=True)[0],
          'old': lambda: ex.split_tensor_train_test_old(X, split=p)[0],
          'pairs': lambda: aux.split_test_train(X, p)}[kind]
    T = np.asarray(call(W, 'the split', fn))
    H = (T == 0) & (X != 0)
    rows, cols = np.arange(N)[:, None] + 0 * X, np.arange(D)[None] + 0 * X
    for v, pr in ((1, f1), (-1, f0)):
        for part, sel in (('all', X == v), ('even rows', (X == v) & (rows % 2 == 0)),
                          ('first rows', (X == v) & (rows < N // 2)),
                          ('last columns', (X == v) & (cols >= D - 10))):
            n = int(sel.sum())
            f = int(H[sel].sum())
            sd = math.sqrt(max(n * pr * (1 - pr), 1e-12))
            if abs(f - n * pr) > 6 * sd + 2:
                raise Violation('a split (%s) of fraction %s hides %d of %d entries %d (%s), expected are %.1f' % (
                    kind, p, f, n, v, part, n * pr))
    st.add('split_frequencies')
    W.log(T)
    st.world(W)
