"""C24 held-out predictions are scored on exactly the hidden entries"""
import numpy as np
from ..common import call, Violation, arr, same
from ..seams import World

ID = 'C24'
RUNS = dict(quick=12000, thorough=1200000)
RULE = ('one evaluation = one data matrix with a split (drawn by the library under seeded draws, or any hidden set), '
        'predictions for it (arbitrary, tied, or those of a machine trained on the visible entries) and the score the '
        'library computes; the score must be the fraction of pairs of a hidden one and a hidden minus one that the '
        'predictions order correctly and must not depend on anything outside the hidden entries; non-trivial = '
        'distinct digest of split and predictions')
MEASURE = 'digest of data, split and predictions'
ASSUMPTIONS = ['both values occur among the hidden entries (else there is nothing to score)',
               'data coded 0/1 have no missing values (the coding cannot express them)']


def gen(rng, tier, i):
    shape = [rng.randint(2, 9), rng.randint(2, 9)]
    p, miss = rng.choice([.2, .5, .8]), rng.choice([0, 0, .1, .4])
    coding = rng.choice(['pm', 'pm', 'pm', '01'])
    val = [[0 if coding == 'pm' and rng.random() < miss else (1 if rng.random() < p else -1)
            for _ in range(shape[1])] for _ in range(shape[0])]
    if coding == '01':
        val = [[(v + 1) // 2 for v in r] for r in val]
    return dict(val=val, coding=coding, split=rng.choice(['pairs', 'random', 'balanced', 'any', 'any']),
                p=round(rng.uniform(.1, .6), 3), pred=rng.choice(['real', 'real', 'ties', 'signs', 'wide', 'model']),
                tech=rng.choice(['factor_mean', 'factor_map', 'mc']), seed=rng.randrange(10 ** 6),
                layout=rng.choice(['C', 'C', 'F', 'T']))


def shrink(sc):
    if sc['layout'] != 'C':
        yield dict(sc, layout='C')
    if sc['split'] != 'any':
        yield dict(sc, split='any')
    if sc['pred'] != 'real':
        yield dict(sc, pred='real')
    v = sc['val']
    for k in range(len(v)):
        if len(v) > 2:
            yield dict(sc, val=v[:k] + v[k + 1:])
    for k in range(len(v[0])):
        if len(v[0]) > 2:
            yield dict(sc, val=[r[:k] + r[k + 1:] for r in v])


def laid(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'T':
        b = np.zeros((a.shape[1] + 1, a.shape[0] + 2), dtype=a.dtype)
        b[:-1, 1:-1] = a.T
        return b[:-1, 1:-1].T
    return a


def area(pos, neg):
    """fraction of pairs in the right order, ties count half"""
    d = np.asarray(pos)[:, None] - np.asarray(neg)[None, :]
    return float(np.mean((d > 0) + .5 * (d == 0)))


def run(sc, st):
    import lom
    import lom.auxiliary_functions as aux
    import lom.experiments as ex
    X = laid(arr(sc['val']), sc['layout'])
    one, none = (X == 1), ((X == 0) if sc['coding'] == 'pm' else np.zeros(X.shape, dtype=bool))
    pm = np.where(none, 0, np.where(one, 1, -1)).astype(np.int8)
    # 0/1 and -1/1 coded data mean the same
    if sc['coding'] == '01' or not none.any():
        keep = X.copy()
        got = np.asarray(call(World(seed=1), 'checking the coding', aux.check_binary_coding, X))
        want = pm if sc['coding'] == '01' or (pm == -1).any() else X
        if not same(keep, X):
            raise Violation('checking the binary coding changed the array')
        if (pm == -1).any() and (got.dtype != np.int8 or not same(got, want)):
            raise Violation('data coded %s became %s' % (np.unique(X).tolist(), np.unique(got).tolist()))
    how = sc['split']
    W = World(seed=sc['seed'])
    rs = np.random.RandomState(sc['seed'])
    T = None
    half = int(np.prod(X.shape) * sc['p'] / 2)
    few = min(int((pm == 1).sum()), int((pm == -1).sum()))
    if how == 'pairs' and few >= max(half, 1):
        T = np.asarray(call(W, 'split_test_train', aux.split_test_train, X, sc['p']))
    elif how == 'random' and sc['p'] / max(1 - np.mean(pm == 0), 1e-9) <= 1:
        T = np.asarray(call(W, 'split_train_test', ex.split_train_test, pm, split=sc['p'])[0])
    elif how == 'balanced' and few > (pm != 0).sum() * sc['p'] * .5 + 1:
        T = np.asarray(call(W, 'split_train_test', ex.split_train_test, pm, split=sc['p'], balanced=True)[0])
    if T is None:
        how = 'any'
        T = np.where(rs.rand(*X.shape) < sc['p'], 0, pm).astype(np.int8)
    hidden = (T == 0) & (pm != 0)
    if not (hidden & one).any() or not (hidden & ~one).any():
        st.add('nothing_to_score')
        W.log(T)
        st.world(W)
        return
    st.add('split.' + how)
    if sc['pred'] == 'model':
        def train():
            m = lom.Machine()
            d = m.add_matrix(np.array(T, dtype=np.int8), fixed=True)
            lay = m.add_layer(latent_size=2, child=d)
            m.infer(no_samples=4, burn_in_min=2, burn_in_max=6, convergence_window=4)
            return np.array(lay.output(technique=sc['tech']), dtype=float)
        P = call(W, 'training', train)
    elif sc['pred'] == 'ties':
        P = rs.randint(0, 4, X.shape) / 4.
    elif sc['pred'] == 'signs':
        P = rs.choice([-1, 1], X.shape).astype(np.int8)
    elif sc['pred'] == 'wide':
        P = rs.standard_cauchy(X.shape) * 50
    else:
        P = rs.rand(*X.shape)
    st.add('predictions.' + sc['pred'])
    if P.shape != X.shape:
        raise Violation('predictions have shape %s' % (P.shape,))
    want = area(P[hidden & one].astype(float), P[hidden & ~one].astype(float))
    noise = rs.rand(*X.shape) * 3 - 1
    for name, Q in (('', P), (' (other predictions elsewhere)', np.where(hidden, P.astype(float), noise)),
                    (' (predictions mapped monotonically)', np.arctan(P.astype(float) / 7))):
        args = [X, laid(T.astype(X.dtype), sc['layout']), laid(Q, sc['layout'])]
        keep = [np.array(a) for a in args]
        got = call(World(seed=sc['seed'] + 1), 'get_roc_auc', aux.get_roc_auc, *args)
        if not all(same(a, b) for a, b in zip(args, keep)):
            raise Violation('scoring changed its input')
        if np.ndim(got) != 0 or not abs(float(got) - want) < 1e-9:
            raise Violation('score of %d hidden ones and %d hidden minus ones%s is %s, the fraction of pairs in the '
                            'right order is %.6f' % ((hidden & one).sum(), (hidden & ~one).sum(), name, got, want))
    W.log(pm, T, np.asarray(P, dtype=float))
    st.add('scored')
    st.world(W)
