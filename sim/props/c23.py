"""C23 expected densities are those of simulated data"""
import numpy as np
from .. import ref
from ..common import call, Violation
from ..seams import World

ID = 'C23'
RUNS = dict(quick=4500, thorough=450000)
RULE = ('one evaluation = one model name with numbers of factors and dimensions and a factor density; factors are '
        'drawn by the library for 30000 independent data points under seeded draws, the fraction of ones among the '
        'points the model emits from them is compared with the closed form; every second one asks the solver for the '
        'factor density of a given data density and simulates data of it; non-trivial = distinct digest of the draws')
MEASURE = 'digest of the factors drawn and of the emitted data'
ASSUMPTIONS = ['solver: data densities reached by a factor density between 0.1 and 0.9, at most 5 dimensions',
               'frequencies are compared within 6 standard deviations']
POINTS = 30000


def gen(rng, tier, i):
    sc = dict(model=ref.ALL_NAMES[i % len(ref.ALL_NAMES)], K=rng.choice([2, 2, 3, 3, 4]), seed=rng.randrange(10 ** 6))
    if rng.random() < .5:
        sc['L'] = rng.choice([1, 2, 3, 4, 5, 8, 12])
        sc['f'] = rng.choice([.5, .02, .98, round(rng.random(), 4), round(rng.random(), 4), round(rng.random(), 4)])
    else:
        sc['K'] = rng.choice([2, 3])
        sc['L'] = rng.randint(1, 5)
        sc['solve'] = round(rng.uniform(.1, .9), 4)
    return sc


def shrink(sc):
    for k in ('K', 'L'):
        if sc[k] > (2 if k == 'K' else 1):
            yield dict(sc, **{k: sc[k] - 1})
    for f in (.5, .25):
        if 'f' in sc and sc['f'] not in (.5, f):
            yield dict(sc, f=f)


def operate(name, b):
    """logical operator along the last axis"""
    n = b.sum(axis=-1)
    if name.startswith('N'):
        return ~operate(name[1:], b)
    return {'OR': n > 0, 'AND': n == b.shape[-1], 'XOR': n == 1}[name]


def exact(name, p, n):
    """probability that an operator of n independent inputs is on"""
    if name.startswith('N'):
        return 1 - exact(name[1:], p, n)
    return {'OR': 1 - (1 - p) ** n, 'AND': p ** n, 'XOR': n * p * (1 - p) ** (n - 1)}[name]


def number(x, what):
    x = np.asarray(x, dtype=float)
    if x.size != 1 or not np.isfinite(x).all():
        raise Violation('%s is %s' % (what, x.tolist()))
    return float(x.reshape(-1)[0])


def near(freq, p, n, what):
    sd = np.sqrt(max(p * (1 - p), 0) / n)
    if abs(freq - p) > 6 * sd + 8.0 / n:
        raise Violation('%s: %.5f of %d simulated data points are on, expected are %.5f' % (what, freq, n, p))


def run(sc, st):
    import lom.auxiliary_functions as aux
    K, L, name = sc['K'], sc['L'], sc['model']
    outer, inner = name.split('-')
    what = '%s with %d factors and %d dimensions' % (name, K, L)
    W = World(seed=sc['seed'])
    if 'solve' in sc:
        goal = exact(outer, exact(inner, sc['solve'], K), L)
        f = number(call(W, 'factor_density', aux.factor_density, name, L, K, goal), 'the factor density of ' + what)
        if not -1e-9 <= f <= 1 + 1e-9:
            raise Violation('%s: factor density %s for data of density %s' % (what, f, goal))
        f = min(max(f, 0.0), 1.0)
        what += ', solved for density %.5f' % goal
        st.add('solved')
    else:
        f = sc['f']
        goal = number(call(W, 'expected_density', aux.expected_density, name, L, K, f), 'the density of ' + what)
        what += ' of density %s' % f
    W = World(seed=sc['seed'] + 1)
    F = []
    for k in range(K):
        m = call(W, 'random_machine_matrix', aux.random_machine_matrix, f, (POINTS, L))
        m = np.asarray(m)
        if m.shape != (POINTS, L) or not np.all((m == 1) | (m == -1)):
            raise Violation('random matrix of shape %s holds %s' % (m.shape, np.unique(m).tolist()[:5]))
        near(float(np.mean(m == 1)), f, m.size, 'random matrix of density %s' % f)
        F.append(m == 1)
    x = operate(outer, operate(inner, np.stack(F, axis=-1)))
    near(float(np.mean(x)), goal, POINTS, what)
    # the library emits the same data from these factors
    n = 3
    for r in range(2):
        G = [2 * f_[r * 7 + k * n:][:n].astype(np.int8) - 1 for k, f_ in enumerate(F)]
        got = np.asarray(call(World(seed=1), 'generating data', aux.lom_generate_data, G, name))
        for idx in np.ndindex(*got.shape):
            b = np.stack([g[i] == 1 for g, i in zip(G, idx)], axis=-1)
            if got.shape != (n,) * K or (got[idx] == 1) != bool(operate(outer, operate(inner, b))):
                raise Violation('data generated for %s are not those of its logic' % name)
    W.log(np.packbits(x).tobytes())
    st.add('points', POINTS)
    st.world(W)
