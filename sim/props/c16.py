"""C16 parallel model search returns the right result in every row"""
import numpy as np
from .. import ref, pool
from ..common import Violation, pm0, pm, lom_frames, describe, arr, updates_seen
from .. import seams
from ..seams import World, FAULTS

ID = 'C16'
RUNS = dict(quick=10000, thorough=1000000)
RULE = ('one evaluation = one grid search over models, sizes and restarts whose tasks are executed by simulated worker '
        'processes (forked random state, pickled arguments, random assignment, chunking and order of completion), some '
        'with failing tasks; every row is recomputed from its returned factors; non-trivial = distinct event log')
MEASURE = 'digest of task assignment, order, draws and returned rows'
ASSUMPTIONS = ['inference inside the search is shortened in most runs (bounds on iterations, nothing else)',
               'killed worker processes are not modelled (multiprocessing.Pool itself never returns then)',
               'MAX-AND and the non-parametric model are not searched (a scalar start dispersion is set)']
REAL = ['lom.experiments (search, split, scoring)', 'lom.machine', 'lom kernels', 'pickling of arguments and results']
STUB = ['process pool', 'random draws', 'terminal']


def gen(rng, tier, i):
    K = rng.choice([2, 2, 2, 3])
    shape = [rng.randint(3, 7) for _ in range(K)] if K == 2 else [rng.randint(2, 4) for _ in range(K)]
    miss = rng.choice([0, 0, .2, .6])
    X = pm0(rng, shape, rng.choice([.3, .5, .5]), miss)
    if not np.any(X):
        X = pm0(rng, shape, .5, 0)
    sc = dict(x=X, seed=rng.randrange(10 ** 6), anneal=rng.random() < .5, balanced=rng.random() < .35,
              lbda=rng.choice([.1, 1.0]), plan=rng.randrange(10 ** 9), processes=rng.choice([None, 1, 2, 3, 8]),
              real=rng.random() < .03)
    flat = np.array(X)
    if sc['balanced'] and (np.sum(flat == 1) < 4 or np.sum(flat == -1) < 4):
        sc['balanced'] = False
    names = ref.ALL_NAMES if rng.random() < .5 else ref.FAMILIES
    sc['machines'] = [rng.choice(names) for _ in range(rng.randint(1, 3))]
    if not sc['real'] and rng.random() < .08:
        sc['machines'] = None
    sc['L'] = rng.choice([[1], [2], [1, 2], [2, 1, 3]])
    sc['idx'] = rng.choice([[0], [0, 1], [3, 1], [0, 1, 2], [11, 7]])
    if sc['machines'] is not None and rng.random() < .3:        # restarts only
        sc.update(machines=sc['machines'][:1], L=sc['L'][:1],
                  idx=rng.choice([[0, 1], [3, 1, 2], [0, 1, 2, 3], list(range(9)), [5, 500, 50]]))
    if sc['real']:
        sc.update(L=[2], idx=[0], machines=sc['machines'][:1], anneal=False)
    if sc['machines'] is None:
        sc.update(L=[2], idx=[0])
    n = len(sc['machines'] or range(8)) * len(sc['L']) * len(sc['idx'])
    if rng.random() < .3:
        how = rng.choice(['raise', 'value', 'assert', 'memory', 'draw', 'alloc', 'update'])
        sc['fail'] = dict(task=rng.randrange(n), how=how, at=rng.choice([1, 2, 5, 10, 30]))
    return sc


def shrink(sc):
    for k in ('machines', 'L', 'idx'):
        if sc[k] and len(sc[k]) > 1:
            for j in range(len(sc[k])):
                yield dict(sc, **{k: sc[k][:j] + sc[k][j + 1:]})
    for k, d in (('anneal', False), ('processes', 1), ('balanced', False), ('real', False)):
        if sc[k] != d:
            yield dict(sc, **{k: d})


class short:
    """fewer iterations inside Machine.infer"""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        import lom.machine
        self.cls = lom.machine.Machine
        self.real = self.cls.infer
        if not self.on:
            return

        def infer(m, *a, **k):
            names = ['no_samples', 'convergence_window', 'convergence_eps', 'burn_in_min', 'burn_in_max']
            k = dict(zip(names, a), **k)
            for key, cap in (('burn_in_min', 3), ('burn_in_max', 5), ('no_samples', 4), ('fix_lbda_iters', 2),
                             ('convergence_window', 2)):
                if key in k:
                    k[key] = min(k[key], cap)
            return self.real(m, **k)
        self.cls.infer = infer

    def __exit__(self, *a):
        self.cls.infer = self.real


class watch:
    """training data every task sees"""

    def __enter__(self):
        import lom.machine
        self.cls = lom.machine.Machine
        self.real = self.cls.add_matrix

        def add_matrix(m, val=None, *a, **k):
            W = seams.CUR
            if W is not None and W.task is not None and isinstance(val, np.ndarray):
                W.task.seen.append(np.array(val, copy=True))
            return self.real(m, val, *a, **k)
        self.cls.add_matrix = add_matrix

    def __exit__(self, *a):
        self.cls.add_matrix = self.real


def accuracy(model, factors, X, mask):
    """set of accuracies consistent with the returned factors (ties, inverted factors)"""
    A = [(np.asarray(f, dtype=float) + 1) / 2 for f in factors]
    out = []
    for inv in ((False,) if model in ref.FAMILIES else (False, True)):
        P = ref.fuzzy(model, [1 - a if inv else a for a in A])[mask]
        t = X[mask] == 1
        sure = np.abs(P - .5) > 1e-7
        hit = (P > .5) == t
        lo = float(np.sum(hit & sure)) / len(P)
        hi = float(np.sum(hit | ~sure)) / len(P)
        out.append((lo - 1e-12, hi + 1e-12))
    return out


def run(sc, st):
    import lom.experiments as ex
    X = np.array(sc['x'], dtype=np.int8)
    orig = X.copy()
    W = World(seed=sc['seed'], budget=3000000)
    plan = pool.Plan(sc['plan'], sc.get('fail'), sc['processes'])
    W.pool_plan = plan
    kw = dict(machines=sc['machines'], L_inits=list(sc['L']), random_idxs=list(sc['idx']), lbda_init=sc['lbda'],
              balanced=sc['balanced'], anneal=sc['anneal'])
    exc = res = None
    try:
        with short(not sc['real']), watch(), W:
            res = ex.LOM_hyperparms_parallel_gridsearch(X, **kw)
    except FAULTS + (pool.WorkerFailure,) as e:
        exc = e
    except seams.NoProgress as e:
        raise Violation('the search makes no progress: %s' % e)
    except Exception as e:
        exc = e
    fired = list(plan.fired) + [k for k, _ in W.fired]
    for f in fired:
        st.add('fault.worker_' + f)
    st.add('tasks', len(plan.runs))
    st.add('sweeps', W.count['update'])
    W.log([(t.number, t.worker) for t in plan.runs])
    if not (X.dtype == np.int8 and np.array_equal(X, orig)):
        raise Violation('the search changed the data of the caller')
    if exc is not None:
        if not fired:
            if lom_frames(exc):
                raise Violation('the search raised %s' % describe(exc))
            raise exc
        st.add('failed_searches')
        st.world(W)
        return
    if fired:
        raise Violation('the search returned although a worker failed (%s)' % fired[0])
    table, factors = res
    names = sc['machines']
    if names is None:
        import lom.auxiliary_functions as aux
        names = aux.canonical_loms()
    want = [(m, L, r) for m in names for L in sc['L'] for r in sc['idx']]
    if len(table) != len(want) or len(factors) != len(want):
        raise Violation('%d rows and %d sets of factors for %d combinations' % (len(table), len(factors), len(want)))
    if updates_seen() and W.count['update'] < 2 * len(want):
        raise Violation('%d updates of factors in %d inferences' % (W.count['update'], len(want)))
    # training data
    seen = [a for t in plan.runs for a in t.seen]
    if not seen:
        st.add('unobserved')
        st.world(W)
        return
    T = seen[0]
    if T.shape != X.shape or any(a.shape != T.shape or not np.array_equal(a, T) for a in seen[1:]):
        raise Violation('the combinations were trained on different data')
    M = (T == 0) & (orig != 0)
    if np.any(T[~M] != orig[~M]):
        raise Violation('the training data differs from the data in %d entries that are not hidden' % int(
            np.sum(T[~M] != orig[~M])))
    cols = {c.lower(): c for c in table.columns}
    ca = [c for k, c in cols.items() if 'acc' in k]
    cm, cl = cols.get('lom'), cols.get('l')
    if not ca or cm is None or cl is None:
        raise Violation('columns of the table are %s' % list(table.columns))
    for k, (m, L, r) in enumerate(want):
        row = table.iloc[k]
        if row[cm] != m or int(row[cl]) != L:
            raise Violation('row %d is %s with size %s, requested was %s with size %d' % (
                k, row[cm], row[cl], m, L))
        F = [np.asarray(f) for f in factors[k]]
        if [f.shape for f in F] != [(s, L) for s in X.shape]:
            raise Violation('row %d: factors have shapes %s' % (k, [f.shape for f in F]))
        a = float(row[ca[0]])
        if not M.any():
            st.add('nothing_held_out')
            continue
        ok = accuracy(m, F, orig, M)
        if not any(lo <= a <= hi for lo, hi in ok):
            raise Violation('row %d (%s, size %d): accuracy %.6f, the returned factors predict %.6f of the %d held-out '
                            'entries' % (k, m, L, a, ok[0][0], int(M.sum())))
        st.add('rows')
    # restarts of one model draw different numbers
    done = [t for t in plan.runs if t.draws]
    if len(names) == 1 and len(sc['L']) == 1 and len(set(sc['idx'])) == len(sc['idx']):
        d = [tuple(t.draws) for t in done]
        if len(set(d)) < len(d):
            raise Violation('%d restarts of %s use only %d different sequences of draws' % (
                len(d), names[0], len(set(d))))
        st.add('restarts', len(d))
    W.log(*[np.asarray(f) for fs in factors for f in fs], table.to_numpy().tolist())
    st.world(W)

