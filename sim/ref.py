"""
Reference model, written from the definitions only (no code shared with lom).
Values are +-1 (0 = missing in data).
"""
import math
import itertools
import numpy as np

_zeros = np.zeros
OPS = ('AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR')
FAMILIES = ('OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR',
            'XOR-AND', 'XOR-XOR', 'XOR-NXOR', 'XOR-NAND')
ALL_NAMES = tuple(a + '-' + b for a in OPS for b in OPS)


def op_count(name, count, n):
    """truth value of the operator applied to n inputs, count of which true"""
    if name == 'AND':
        return count == n
    if name == 'NAND':
        return count != n
    if name == 'OR':
        return count > 0
    if name == 'NOR':
        return count == 0
    if name == 'XOR':
        return count == 1
    if name == 'NXOR':
        return count != 1
    raise KeyError(name)


def base_name(model):
    return {'OR-AND-IBP': 'OR-AND'}.get(model, model)


def product(model, factors):
    """logical product of any arity, +-1 array"""
    outer, inner = base_name(model).split('-')
    K = len(factors)
    F = [np.asarray(f) == 1 for f in factors]
    L = F[0].shape[1]
    shape = tuple(f.shape[0] for f in F)
    cnt_outer = np.zeros(shape, dtype=int)
    for l in range(L):
        cnt = np.zeros(shape, dtype=int)
        for k, f in enumerate(F):
            idx = [None] * K
            idx[k] = slice(None)
            cnt = cnt + f[:, l][tuple(idx)].astype(int)
        cnt_outer = cnt_outer + op_count(inner, cnt, K).astype(int)
    out = op_count(outer, cnt_outer, L)
    return np.where(out, 1, -1)


_canon = {}


def canon(name):
    """(family, s, t): name(F) == s * family(t * F) for all factors F"""
    if name not in _canon:
        tests = [np.random.RandomState(k).choice([-1, 1], size=(K, 40, L))
                 for k, (K, L) in enumerate([(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)])]
        tests = [[f[:9] for f in T] for T in tests]
        for t, s, fam in itertools.product((1, -1), (1, -1), FAMILIES):
            if all(np.array_equal(product(name, T), s * product(fam, [t * f for f in T])) for T in tests):
                _canon[name] = (fam, s, t)
                break
    return _canon[name]


def p_op(name, ps):
    """probability that op is true for independent inputs with probs ps"""
    n = len(ps)
    # distribution of the count, clipped at 2 is not enough for AND -> full
    dist = [1.0]
    for p in ps:
        new = [0.0] * (len(dist) + 1)
        for c, q in enumerate(dist):
            new[c] += q * (1 - p)
            new[c + 1] += q * p
        dist = new
    return sum(q for c, q in enumerate(dist) if op_count(name, c, n))


def fuzzy(model, probs):
    """exact probability of a one for independent factor entries"""
    outer, inner = base_name(model).split('-')
    K = len(probs)
    L = probs[0].shape[1]
    shape = tuple(p.shape[0] for p in probs)
    out = np.zeros(shape)
    for idx in itertools.product(*[range(s) for s in shape]):
        ps = [p_op(inner, [float(probs[k][idx[k], l]) for k in range(K)])
              for l in range(L)]
        out[idx] = p_op(outer, ps)
    return out


def max_and(factors, rates):
    """emission probability of a one"""
    Z, U = [np.asarray(f) == 1 for f in factors]
    out = np.full((Z.shape[0], U.shape[0]), float(rates[-1]))
    for n in range(Z.shape[0]):
        for d in range(U.shape[0]):
            act = [rates[l] for l in range(Z.shape[1]) if Z[n, l] and U[d, l]]
            if act:
                out[n, d] = max(act)
    return out


def max_and_fuzzy(Z, U, rates):
    N, L = Z.shape
    D = U.shape[0]
    order = sorted(range(L), key=lambda l: -rates[l])
    out = np.zeros((N, D))
    for n in range(N):
        for d in range(D):
            rem = 1.0
            acc = 0.0
            for l in order:
                p = float(Z[n, l] * U[d, l])
                acc += rem * p * rates[l]
                rem *= 1 - p
            out[n, d] = acc + rem * rates[-1]
    return out


def logit(p):
    return math.log(p) - math.log(1 - p)


def expit(x):
    x = np.asarray(x, dtype=float)
    return 1 / (1 + np.exp(-x))


# --------------------------------------------------------------------------
# log odds of one entry of a factor
# --------------------------------------------------------------------------
class RefLayer:
    """plain copy of a layer's state"""

    def __init__(self, model, factors, lbda, X):
        self.model = model
        self.factors = [np.array(f, dtype=int) for f in factors]
        self.lbda = lbda
        self.X = np.array(X, dtype=int)


def likelihood_odds(model, factors, lbda, X, fi, n, l):
    """log P(X | entry=+1) - log P(X | entry=-1), only row n of axis fi matters"""
    row = [f if k != fi else f[n:n + 1] for k, f in enumerate(factors)]
    X = np.asarray(X)
    Xr = np.take(X, [n], axis=fi)
    keep = row[fi].copy()
    tot = 0.0
    if model == 'MAX-AND':
        vals = []
        for v in (1, -1):
            row[fi] = keep.copy()
            row[fi][0, l] = v
            P = max_and(row, lbda)
            vals.append(float(np.sum(np.where(Xr == 1, np.log(P), 0.0)) +
                              np.sum(np.where(Xr == -1, np.log(1 - P), 0.0))))
        tot = vals[0] - vals[1]
    else:
        preds = []
        for v in (1, -1):
            row[fi] = keep.copy()
            row[fi][0, l] = v
            preds.append(product(model, row))
        better = int(np.sum(Xr * (preds[0] - preds[1]))) // 2
        tot = float(lbda) * better
    return tot


def accept(logodds, z):
    """probability that metropolised Gibbs moves the entry away from z"""
    x = -z * logodds
    return 1.0 if x >= 0 else math.exp(x)


def gibbs(logodds, z):
    """probability that plain Gibbs moves the entry away from z"""
    x = -z * logodds
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


# --------------------------------------------------------------------------
# dispersions
# --------------------------------------------------------------------------
def dispersion(model, factors, X, beta=(1, 1)):
    """returns (value) of the closed form, floored at zero"""
    X = np.asarray(X)
    P = int(np.sum(product(model, factors) == X))
    N = int(np.sum(X != 0))
    a, b = beta
    p = (P + a) / (N + a + b)
    if p >= 1:
        return math.inf
    return max(0.0, math.log(p) - math.log(1 - p))


def quorum_dispersion(Z, U, q, X, beta=(1, 1)):
    cnt = (np.asarray(Z) == 1).astype(int) @ (np.asarray(U) == 1).astype(int).T
    pred = np.where(cnt >= np.asarray(q, dtype=int)[None, :], 1, -1)
    X = np.asarray(X)
    P = int(np.sum(pred == X))
    N = int(np.sum(X != 0))
    a, b = beta
    p = (P + a) / (N + a + b)
    return max(0.0, math.log(p) - math.log(1 - p))


def max_and_rates(Z, U, X, limit=200):
    """
    all admissible outcomes of the greedy estimation (ties may be broken in any
    way), as list of vectors
    """
    Z, U = np.asarray(Z) == 1, np.asarray(U) == 1
    X = np.asarray(X)
    N, L = Z.shape
    pred = [np.outer(Z[:, l], U[:, l]) for l in range(L)]
    results = []
    seen = set()

    def rec(left, mask, rates):
        if len(results) > limit:
            return
        if not left:
            p = int(np.sum(X[~mask] == 1))
            m = int(np.sum(X[~mask] == -1))
            base = (p + 1) / (p + m + 2)
            v = [rates[l] for l in range(L)]
            v.append(min([base] + v))
            key = tuple(round(x, 12) for x in v)
            if key not in seen:
                seen.add(key)
                results.append(v)
            return
        cand = []
        for l in left:
            s = pred[l] & ~mask
            tp = int(np.sum(X[s] == 1))
            fp = int(np.sum(X[s] == -1))
            cand.append(((tp + 1) / (tp + fp + 2), l))
        best = max(c for c, _ in cand)
        for c, l in cand:
            if c >= best - 1e-12:
                r = dict(rates)
                r[l] = c
                rec([k for k in left if k != l], mask | pred[l], r)

    rec(list(range(L)), np.zeros(X.shape, dtype=bool), {})
    return results
