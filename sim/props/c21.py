"""C21 updates of the non-parametric (IBP) model sample the exact conditionals"""
import math
import random
import numpy as np
from .. import ref
from ..common import any_layout, gen_layer, pm0, mask, call, Violation, arr, same, is_pm1, updates_seen
from ..kernel import Rig, ONESTEP, ONE
from ..seams import World

ID = 'C21'
RUNS = dict(quick=4000, thorough=400000)
RULE = ('one evaluation = one simulated OR-AND-IBP machine with a history of runs; every draw of an update of its '
        'first factor is decided by the simulator: one draw after another is put just below and just above the '
        'boundaries of the exact conditional; entries of the second factor are driven at their exact thresholds; '
        'non-trivial = distinct log of values of a sweep')
MEASURE = 'digest of draws, schedule and values of a sweep'
ASSUMPTIONS = ['at most two new dimensions per row and update (as documented in the code: L_new_max)',
               'entries of two new dimensions are drawn one after another, all entries of the first before the second']
NEWMAX = 3
SAMPLES = 2500


def gen(rng, tier, i):
    N, D, L = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
    lay = gen_layer(rng, 'OR-AND-IBP', [N, D], L, p=rng.choice([.3, .5, .8]),
                    lbda=round(rng.choice([0.0, .1, .5, 1.1, 2.3, 6.0, 6.0, 30.0, 40.0, 1000.0]) * rng.uniform(.5, 1.5), 5))
    # a dimension without any or with a single owner
    if rng.random() < .5:
        l, keep = rng.randrange(L), rng.randrange(N)
        for n in range(N):
            lay['factors'][0]['val'][n][l] = 1 if n == keep and rng.random() < .7 else -1
    if rng.random() < .6:
        lay['factors'][1]['prior'] = rng.choice([.5, .1, .3, .7, .95, .01])
    lay['alpha'] = rng.choice([3, 3, .3, 1, 1.7, 8, 20])
    spec = dict(data=dict(val=pm0(rng, [N, D], rng.choice([.2, .5, .8]), rng.choice([0, 0, .2, .6])), fixed=True),
                layers=[lay])
    any_layout(rng, spec['data'])
    ops = []
    if rng.random() < .35:
        ops.append(dict(op='history', iters=rng.randint(1, 4), lbda=round(rng.uniform(0, 3), 4),
                        seed=rng.randrange(10 ** 6)))
    for _ in range(2):
        ops.append(dict(op='update', seed=rng.randrange(10 ** 6), targets=[rng.random() for _ in range(8)]))
        ops.append(dict(op='entries', at=[[rng.random(), rng.random()] for _ in range(3)]))
        ops.append(dict(op='sweep', u=round(rng.random(), 7), p=rng.choice([0, 0, .3]), seed=rng.randrange(10 ** 6)))
        ops.append(dict(op='take', seed=rng.randrange(10 ** 6)))
    if rng.random() < .4:
        ops.append(dict(op='whole', n=rng.randint(1, 4), burn=rng.choice([0, 1, 3]), seed=rng.randrange(10 ** 6)))
    return dict(spec=spec, seed=rng.randrange(10 ** 6), ops=ops)


class Draws:
    """one draw after another, with the boundaries between the outcomes of each"""

    def __init__(self, us, stream):
        self.us, self.stream, self.bounds = list(us), stream, []

    def next(self, probs):
        i = len(self.bounds)
        while i >= len(self.us):
            self.us.append(self.stream())
        c, b = 0.0, []
        for p in probs[:-1]:
            c += p
            b.append(c)
        self.bounds.append(b)
        return sum(self.us[i] >= x for x in b)


def reference(Z, U, X, lbda, prior, alpha, dr):
    """update of the first factor, written from the definition of the process"""
    N, D = X.shape
    ex = lambda v: float(ref.expit(v)) if v > -700 else 0.0       # noqa: E731
    Z, U = [[int(v) == 1 for v in r] for r in Z], [[int(v) == 1 for v in r] for r in U]
    up = lambda a, b: any(p and q for p, q in zip(a, b))          # noqa: E731

    def odds(n, row, l, cols):
        """right predictions of the row with the dimension minus without it"""
        s = 0
        for d in cols:
            if U[d][l] and X[n, d] != 0 and not any(
                    row[k] and U[d][k] for k in range(len(row)) if k != l):
                s += int(X[n, d])
        return s
    for n in range(N):
        m = [sum(Z[k][l] for k in range(N) if k != n) for l in range(len(Z[n]))]
        for l in range(len(m)):
            if m[l] > 0:
                p = ex(lbda * odds(n, Z[n], l, range(D)) + ref.logit(m[l] / N))
                Z[n][l] = dr.next([p, 1 - p]) == 0
        keep = [l for l in range(len(m)) if m[l] > 0]
        Z = [[r[l] for l in keep] for r in Z]
        U = [[r[l] for l in keep] for r in U]
        lw = []
        for k in range(NEWMAX):
            off = (1 - prior) ** k
            soft = math.log1p(math.exp(-lbda))
            with np.errstate(divide='ignore'):
                one = np.logaddexp(np.log(off) - lbda - soft, np.log(1 - off) - soft)
                zero = np.logaddexp(np.log(1 - off) - lbda - soft, np.log(off) - soft)
            w = k * math.log(alpha / N) - math.lgamma(k + 1)
            for d in range(D):
                if X[n, d] != 0 and not up(Z[n], U[d]):
                    w += float(one if X[n, d] == 1 else zero)
            lw.append(w)
        mx = max(lw)
        w = [math.exp(v - mx) for v in lw]
        k = dr.next([v / sum(w) for v in w])
        L = len(keep)
        for j in range(k):
            for r in range(N):
                Z[r].append(r == n)
            for d in range(D):
                U[d].append(False)
        for l in range(L, L + k):
            for d in range(D):
                s = 0
                if X[n, d] != 0 and not any(Z[n][q] and U[d][q] for q in range(L + k) if q != l):
                    s = int(X[n, d])
                p = ex(lbda * s + ref.logit(prior))
                U[d][l] = dr.next([p, 1 - p]) == 0
    return Z, U


def canon(Z, U):
    """order of the dimensions has no meaning"""
    Z, U = list(Z), list(U)
    L = len(Z[0])
    return sorted([tuple(r[l] for r in Z) + tuple(r[l] for r in U) for l in range(L)])


class Update:
    """one update of the first factor under a script of draws"""

    def __init__(self, rig):
        self.rig = rig
        self.lay = rig.layers[0]
        self.z, self.u = self.lay.factors
        self.ix = [rig.mats.index(f) for f in (self.z, self.u)]

    def __call__(self, us, seed):
        rig, z, u = self.rig, self.z, self.u
        rig.reset(self.ix)
        for f in (z, u):
            f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
        W = World(seed=seed)
        out = {}
        pos = [None]

        def stream():
            v = W.rs.random_sample()
            if pos[0] is None:
                return v
            pos[0] += 1
            return us[pos[0] - 1] if us is not None and pos[0] <= len(us) else v
        W.script = stream

        def before(o):
            if o is z and 'before' not in out:
                out['before'] = [np.array(z.val), np.array(u.val)]
                pos[0] = 0

        def after(o):
            if o is z and 'after' not in out:
                out['after'] = [np.array(z.val), np.array(u.val)]
                out['n'] = pos[0]
                pos[0] = None
        W.hooks_before.append(before)
        W.hooks_after.append(after)
        # the second factor is updated first or last: with it fixed, its value is the initial one
        u.fixed = True
        call(W, 'update of the non-parametric model', rig.m.infer, **ONESTEP)
        u.fixed = False
        rig.st.add('sweeps')
        if 'after' not in out:
            raise Violation('no update of the first factor took place')
        (Z, U), N, D = out['after'], z.val.shape[0], u.val.shape[0]
        for f, k in ((Z, self.rig.base[self.ix[0]].shape[0]), (U, self.rig.base[self.ix[1]].shape[0])):
            if f.ndim != 2 or f.shape != (k, Z.shape[1]) or not is_pm1(f):
                raise Violation('factors of shapes %s and %s after an update' % (Z.shape, U.shape))
        W.log(Z, U)
        rig.st.world(W)
        return Z, U


def run(sc, st):
    rig = Rig(sc['spec'], st, sc['seed'])
    lay = rig.layers[0]
    upd = Update(rig)
    X = np.array(sc['spec']['data']['val'])
    fs = sc['spec']['layers'][0]['factors']
    prior = fs[1].get('prior') or .5
    alpha = lay.alpha
    measured, kinds = [False], []
    zi, ui = upd.ix

    def lo(vals, mi, idx):
        return ref.logit(prior) + ref.likelihood_odds('OR-AND', [vals[zi], vals[ui]], rig.lb[0], X, 1, idx[0], idx[1])

    for op in sc['ops']:
        if op['op'] in ('history', 'take'):
            for f in lay.factors:
                f.fixed = False
                f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
            if op['op'] == 'take':
                rig.reset(upd.ix)
                for f in lay.factors:
                    f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
            lay.lbda.fixed = op['op'] == 'take'
            call(World(seed=op['seed']), 'earlier run', rig.m.infer, no_samples=op.get('iters', 1), burn_in_min=0,
                 burn_in_max=2 if op['op'] == 'history' else 0, convergence_window=3)
            rig.take_state()
            if 'lbda' in op:
                rig.lb[0] = op['lbda']
            st.add('histories')
        elif op['op'] == 'whole':
            if not measured[0]:
                check_run(rig, upd, op, X, prior, alpha, st, lo, kinds)
        elif op['op'] == 'update':
            check_update(rig, upd, op, X, prior, alpha, st, measured)
        elif rig.base[ui].shape[1] == 0:
            continue
        elif op['op'] == 'entries':
            D, L = rig.base[ui].shape
            for a, b in op['at']:
                e = (int(a * D), int(b * L))
                kinds.append(rig.check_entry(ui, e, lo(rig.base, ui, e), 1e-7, 'second factor of the non-parametric model'))
        elif op['op'] == 'sweep':
            mk = (np.random.RandomState(op['seed']).random_sample(rig.base[ui].shape) < op['p']).astype(np.int8)
            rig.check_sweep([ui], {ui: mk}, op['u'], lo, 'sweep of the second factor of the non-parametric model')
            rig.take_state()


def check_update(rig, upd, op, X, prior, alpha, st, measured):
    Z0, U0 = [rig.base[i] for i in upd.ix]
    lb = rig.lb[0]
    r = random.Random(op['seed'])

    def expect(us):
        dr = Draws(us, r.random)
        Z, U = reference(Z0, U0, X, lb, prior, alpha, dr)
        return canon(Z, U), dr

    def got(us):
        Z, U = upd(us, op['seed'])
        return canon((Z == 1).tolist(), (U == 1).tolist())
    _, dr = expect([])
    base = dr.us
    trials = [base]
    for t in op['targets']:
        if not dr.bounds:
            break
        k = int(t * len(dr.bounds))
        for b in dr.bounds[k]:
            for v in (b - 1e-7, b + 1e-7):
                if 0 < v < 1:
                    trials.append(base[:k] + [v] + base[k + 1:])
    st.add('updates')
    good = True
    if not measured[0]:
        for us in trials:
            want, d2 = expect(us)
            # a later draw close to a boundary is no evidence
            if any(abs(x - u) < 2e-8 for u, b in zip(d2.us, d2.bounds) for x in b):
                continue
            st.add('scripted')
            if got(d2.us) != want:
                good = False
                break
    if good and not measured[0]:
        return
    # draws may be used in another way: compare distributions
    measured[0] = True
    if st.__dict__.setdefault('_c21_measured', 0) >= 12:
        return
    st._c21_measured += 1
    st.add('updates_measured')
    compare(Z0, U0, X, lb, prior, alpha, upd, op['seed'])


def check_run(rig, upd, op, X, prior, alpha, st, lo, kinds):
    """every update of a run, given the values and the dispersion as they are right then"""
    if not updates_seen():
        return
    z, u = upd.z, upd.u
    zi, ui = upd.ix
    rig.reset(upd.ix)
    for f in (z, u):
        f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
    rig.layers[0].lbda.fixed = False
    W = World(seed=op['seed'])
    us, prev, const = [], [], [None]

    def draw():
        if const[0] is not None:
            return const[0]
        us.append(W.rs.random_sample())
        return us[-1]
    W.script = draw
    if rig.base[ui].shape[1]:
        rig.form(ui)
    keep = rig.lb

    def before(o):
        us[:] = []
        prev[:] = [np.array(x.val) for x in rig.mats]
        rig.lb = [float(p.val) for p in rig.m.lbdas]
        const[0] = W.rs.random_sample() if o is u else None

    def after(o):
        now = [np.array(x.val) for x in rig.mats]
        if o is z:
            dr = Draws(us, lambda: .5)
            want = canon(*reference(prev[zi], prev[ui], X, rig.lb[0], prior, alpha, dr))
            if any(abs(x - v) < 2e-7 for v, b in zip(dr.us, dr.bounds) for x in b):
                st.add('updates_in_runs_too_close')
                return
            if canon((now[zi] == 1).tolist(), (now[ui] == 1).tolist()) != want:
                raise Violation('update of the first factor within a run (dispersion %.6g) differs from the exact '
                                'conditionals' % rig.lb[0])
            st.add('updates_judged_in_runs')
        elif o is u:
            if now[zi].shape != prev[zi].shape or not same(now[zi], prev[zi]):
                raise Violation('the update of the second factor changed the first')
            if now[ui].shape != prev[ui].shape:
                raise Violation('the update of the second factor changed its shape')
            bad = rig._matrix_ok(ui, list(prev), now[ui], None, const[0], lo, 1e-9) \
                if rig.forms.get(ui) and 'other' not in kinds and now[ui].shape[1] else None
            if bad:
                raise Violation('within a run (dispersion %.6g): %s' % (rig.lb[0], bad))
            st.add('updates_judged_in_runs')
        W.log(*now)
    W.hooks_before.append(before)
    W.hooks_after.append(after)
    try:
        call(W, 'run of the non-parametric model', rig.m.infer, no_samples=op['n'], burn_in_min=op['burn'],
             burn_in_max=op['burn'], convergence_window=3)
    finally:
        rig.lb = keep
    st.world(W)
    rig.take_state()


def features(c, N):
    """counts of what happened"""
    out = dict(dims=len(c))
    f = {('dims', len(c)): 1}
    for col in c:
        n = sum(col[:N])
        f[('owners', n)] = f.get(('owners', n), 0) + 1
        f[('members', sum(col[N:]))] = f.get(('members', sum(col[N:])), 0) + 1
        f[('col', col)] = f.get(('col', col), 0) + 1
        for i, v in enumerate(col):
            if v:
                f[('sum', i)] = f.get(('sum', i), 0) + 1
    del out
    return f


def compare(Z0, U0, X, lb, prior, alpha, upd, seed):
    N = X.shape[0]
    r = random.Random(seed + 1)
    tot = [{}, {}]
    cnt = [SAMPLES, 4 * SAMPLES]
    for side in range(2):
        for k in range(cnt[side]):
            if side == 0:
                Z, U = upd(None, seed + 10 + k)
                c = canon((Z == 1).tolist(), (U == 1).tolist())
            else:
                Z, U = reference(Z0, U0, X, lb, prior, alpha, Draws([], r.random))
                c = canon(Z, U)
            for key, v in features(c, N).items():
                s = tot[side].setdefault(key, [0, 0])
                s[0] += v
                s[1] += v * v
    for key in sorted(set(tot[0]) | set(tot[1]), key=repr):
        a, b = tot[0].get(key, [0, 0]), tot[1].get(key, [0, 0])
        ma, mb = a[0] / cnt[0], b[0] / cnt[1]
        va = max(a[1] / cnt[0] - ma * ma, 1e-3)
        vb = max(b[1] / cnt[1] - mb * mb, 1e-3)
        zs = abs(ma - mb) / math.sqrt(va / cnt[0] + vb / cnt[1])
        if zs > 6:
            raise Violation('updates of the first factor: %s occurs %.4f times per update, exact conditionals give '
                            '%.4f (%d and %d simulated updates)' % (key, ma, mb, cnt[0], cnt[1]))
