"""C22 samples recorded by a run follow the exact joint posterior"""
import itertools
import math
import numpy as np
from .. import ref
from ..common import any_layout, gen_machine, gen_rates, mask, build, call, Violation, arr, same
from ..seams import World

ID = 'C22'
RUNS = dict(quick=200, thorough=20000)
RULE = ('one evaluation = one small machine (all families, 2-/3-D, layers on factors and data, unfixed data, MAX-AND, '
        'quorum; fixed entries, priors, missing data) whose joint posterior is enumerated; 1500 to 4500 simulated runs '
        'start at exact draws from it and the distribution of the last recorded sample is compared with it; '
        'non-trivial = distinct log of states of all runs')
MEASURE = 'digest of starts, draws and recorded samples of all runs of a machine'
ASSUMPTIONS = ['fixed dispersions', 'at most 1500 joint states', 'a wrong stationary law within statistical resolution '
               '(about 3 % on a state) is not seen', 'non-parametric model excluded']
KINDS = ('2d', '2d', '2d', '3d', 'max', 'ql', 'layered', 'twodata', 'free', 'free')
LIMIT = 1500
P_ALARM = 1e-10


def states(spec):
    """number of joint states"""
    n = 0
    for l in spec['layers']:
        for f in l['factors']:
            n += 0 if f.get('fixed') else np.size(f['val']) - np.sum(f.get('fixed_entries') or 0)
    d = spec['data']
    if not d['fixed']:
        n += np.size(d['val']) - np.sum(d.get('fixed_entries') or 0)
    q = len(d['val'][0]) if spec['layers'][0]['model'] == 'qL-AND' else 0
    return 2.0 ** int(n) * 5 ** q


def gen(rng, tier, i):
    kind = rng.choice(KINDS)
    for _ in range(200):
        spec = gen_machine(rng, (kind,), mx=rng.choice([2, 3]), maxL=2, fixing=0)
        for l in spec['layers']:
            l['lbda_fixed'] = True
            if l['model'] != 'MAX-AND':
                l['lbda'] = round(rng.choice([.2, .5, .9, 1.4, 2.2]) * rng.uniform(.8, 1.2), 4)
            l['L'] = len(l['factors'][0]['val'][0])
            for f in l['factors']:
                if rng.random() < .15:
                    f['fixed'] = True
                elif rng.random() < .3:
                    f['fixed_entries'] = mask(rng, (len(f['val']), len(f['val'][0])), rng.choice([.2, .6]))
                if rng.random() < .3:
                    f['prior'] = round(rng.uniform(.15, .85), 3)
        d = spec['data']
        if not d['fixed']:
            if rng.random() < .5:
                d['fixed_entries'] = mask(rng, (len(d['val']), len(d['val'][0])), rng.choice([.3, .7]))
            if rng.random() < .5:
                d['prior'] = round(rng.uniform(.15, .85), 3)
        if 4 <= states(spec) <= LIMIT:
            break
    else:
        spec = dict(kind='2d', data=dict(val=[[1, -1], [-1, 1]], fixed=True), layers=[dict(
            model='OR-AND', L=1, lbda=.9, lbda_fixed=True, factors=[dict(val=[[1], [-1]]), dict(val=[[1], [1]])])])
    any_layout(rng, spec['data'])
    return dict(spec=spec, seed=rng.randrange(10 ** 6), reps=rng.choice([1500, 3000, 4500]),
                n=rng.choice([1, 1, 2, 3]), burn=rng.choice([0, 0, 1]), gamma=rng.choice([1, .5, 2.5]))


def free_cells(sc, mats, qs):
    cells = []
    for k, x in enumerate(mats):
        if x.fixed:
            continue
        for idx in np.ndindex(*x.val.shape):
            if k in qs or x.fixed_entries[idx] != 1:
                cells.append((k, idx, (1, 2, 3, 4, 5) if k in qs else (-1, 1)))
    return cells


def log_density(m, mats, where, vals, gamma):
    """unnormalised joint log density of all matrices, from the definition of the models"""
    out = 0.0
    for l in m.layers:
        F = [vals[where[id(f)]] for f in l.factors]
        X = vals[where[id(l.child)]]
        if l.model == 'MAX-AND':
            P = ref.max_and(F, np.asarray(l.lbda.val, dtype=float))
            out += float(np.sum(np.log(P[X == 1])) + np.sum(np.log(1 - P[X == -1])))
        else:
            if l.model == 'qL-AND':
                q = vals[where[id(l.q)]].astype(int)
                cnt = (F[0] == 1).astype(int) @ (F[1] == 1).astype(int).T
                P = np.where(cnt >= q, 1, -1)
                for v in q.ravel():
                    out += int(v) * math.log(gamma) - math.lgamma(int(v) + 1)
            else:
                P = ref.product(l.model, F)
            lb = float(l.lbda.val)
            out += lb * int(np.sum((P == X) & (X != 0)))
    for x in mats:
        if x.bernoulli_prior != .5 and not x.fixed:
            v = vals[where[id(x)]]
            out += ref.logit(x.bernoulli_prior) * int(np.sum(v == 1))
    return out


def run(sc, st):
    spec = sc['spec']
    m, data, layers = call(World(seed=sc['seed']), 'building the machine', build, spec)
    mats = list(m.members)
    where = {id(x): k for k, x in enumerate(mats)}
    qs = []
    for l in layers:
        if l.model == 'qL-AND':
            l.gamma = sc['gamma']
            qs.append(where[id(l.q)])
    cells = free_cells(sc, mats, qs)
    if not cells:
        return
    base = [np.array(x.val) for x in mats]
    lb = [np.array(p.val) for p in m.lbdas]
    combos = list(itertools.product(*[c[2] for c in cells]))
    lw = []
    for c in combos:
        vals = [b.copy() for b in base]
        for (k, idx, _), v in zip(cells, c):
            vals[k][idx] = v
        lw.append(log_density(m, mats, where, vals, sc['gamma']))
    lw = np.array(lw)
    p = np.exp(lw - lw.max())
    p /= p.sum()
    rs = np.random.RandomState(sc['seed'])
    starts = rs.choice(len(combos), size=sc['reps'], p=p)
    index = {c: i for i, c in enumerate(combos)}
    count = np.zeros(len(combos))
    W = World(seed=sc['seed'] + 5, budget=10 ** 9)
    free = sorted({c[0] for c in cells})
    moved = 0
    for s in starts:
        for k, x in enumerate(mats):
            x.val = base[k].copy()
        for (k, idx, _), v in zip(cells, combos[s]):
            mats[k].val[idx] = v
        for x, v in zip(m.lbdas, lb):
            x.val = v.copy() if v.ndim else float(v)
        call(W, 'run', m.infer, no_samples=sc['n'], burn_in_min=sc['burn'], burn_in_max=sc['burn'],
             convergence_window=2)
        last = {}
        for k in free:
            t = np.asarray(mats[k].trace)
            if t.shape != (sc['n'],) + base[k].shape:
                raise Violation('samples of matrix %d have shape %s' % (k, t.shape))
            last[k] = t[-1]
        c = tuple(int(last[k][idx]) for k, idx, _ in cells)
        if c not in index:
            raise Violation('a run ended in the impossible state %s' % (c,))
        count[index[c]] += 1
        moved += any(np.any(mats[k].trace != mats[k].trace[:1]) for k in free)
        W.log(c)
    st.add('sweeps', W.count['update'])
    st.add('simulated_runs', sc['reps'])
    st.add('kind.' + spec['kind'])
    st.world(W)
    judge(sc, cells, combos, p, count)
    # at stationarity, one visit to an entry changes it with at least this probability
    q = max(sum(p[i] * (1 - p[i] / t) for i, t in enumerate(totals) if t > 0)
            for totals in conditionals(combos, p))
    if moved == 0 and sc['n'] > 1 and q * sc['reps'] > 40:
        raise Violation('none of %d runs ever left a state between two samples' % sc['reps'])


def conditionals(combos, p):
    """Per entry and state: probability of all states that differ in this entry only."""
    for k in range(len(combos[0])):
        group = {}
        for c, x in zip(combos, p):
            key = c[:k] + c[k + 1:]
            group[key] = group.get(key, 0) + x
        yield [group[c[:k] + c[k + 1:]] for c in combos]


def judge(sc, cells, combos, p, count):
    from scipy.stats import chi2
    R = sc['reps']

    def chi(pp, cc, what):
        # cells of small expectation are joined
        o = np.argsort(pp)
        pp, cc = pp[o], cc[o]
        P, C, a, b = [], [], 0.0, 0.0
        for x, y in zip(pp, cc):
            a, b = a + x, b + y
            if a * R >= 10:
                P.append(a)
                C.append(b)
                a = b = 0.0
        if a > 0 and P:
            P[-1] += a
            C[-1] += b
        if len(P) < 2:
            return
        P, C = np.array(P), np.array(C)
        stat = float(np.sum((C - R * P) ** 2 / (R * P)))
        pv = float(chi2.sf(stat, len(P) - 1))
        if pv < P_ALARM:
            k = int(np.argmax(np.abs(C - R * P) / np.sqrt(R * P)))
            raise Violation('samples do not follow the posterior: %s, chi2 %.1f on %d degrees of freedom, p=%.2g, '
                            'e.g. %d of %d runs where %.1f are expected' % (
                                what, stat, len(P) - 1, pv, C[k], R, R * P[k]))
    S = np.array(combos)
    for j in range(len(cells)):
        vs = cells[j][2]
        chi(np.array([p[S[:, j] == v].sum() for v in vs]), np.array([count[S[:, j] == v].sum() for v in vs]),
            'values of entry %s of matrix %d' % (cells[j][1], cells[j][0]))
    for a in range(len(cells)):
        for b in range(a + 1, min(len(cells), a + 8)):
            key = [(x, y) for x in cells[a][2] for y in cells[b][2]]
            sel = [(S[:, a] == x) & (S[:, b] == y) for x, y in key]
            chi(np.array([p[s].sum() for s in sel]), np.array([count[s].sum() for s in sel]),
                'joint values of entries %s of matrix %d and %s of matrix %d' % (
                    cells[a][1], cells[a][0], cells[b][1], cells[b][0]))
    chi(p, count, 'joint states')
