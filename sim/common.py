"""Scenario helpers: machines from JSON, violations, invariants."""
import math
import traceback
import numpy as np
from . import seams
from .seams import World, FAULTS, NoProgress
from . import ref

EMPTY = seams._real


class Violation(Exception):
    pass


class Broken(Exception):
    """the harness itself is broken or cannot observe what it needs"""


class Scratch:
    pass


def lom_frames(exc):
    return any(f.filename.startswith(seams.LOMDIR)
               for f in traceback.extract_tb(exc.__traceback__))


def describe(exc):
    tb = [f for f in traceback.extract_tb(exc.__traceback__)
          if f.filename.startswith(seams.LOMDIR)]
    where = ''
    if tb:
        where = ' in %s:%s' % (tb[-1].filename[len(seams.LOMDIR):], tb[-1].name)
    return '%s: %s%s' % (type(exc).__name__, str(exc)[:200], where)


def caused(e):
    """raised while an injected fault was being handled"""
    seen = 0
    while e is not None and seen < 50:
        if isinstance(e, FAULTS):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def guarded(W, what, fn, *a, **k):
    """
    Run fn inside world W. Unexpected exceptions raised by lom are violations,
    injected faults are returned.
    """
    try:
        with W:
            return fn(*a, **k), None
    except FAULTS as e:
        if not W.fired:
            raise
        return None, e
    except NoProgress as e:
        raise Violation('%s makes no progress: %s' % (what, e))
    except Violation:
        raise
    except Exception as e:
        if W.fired and (isinstance(e, (MemoryError, OSError, KeyboardInterrupt)) or caused(e)):
            return None, e
        if lom_frames(e):
            raise Violation('%s raised %s' % (what, describe(e)))
        raise


def reported(m, what):
    """number of burn-in iterations a completed run reports"""
    T = getattr(m, 'burn_in_iters', None)
    if T is None or int(T) != T:
        raise Violation('%s completed and reports %r burn-in iterations' % (what, T))
    return int(T)


def call(W, what, fn, *a, **k):
    """fault-free call"""
    r, f = guarded(W, what, fn, *a, **k)
    if f is not None:
        raise Broken('fault in fault-free call')
    return r


# --------------------------------------------------------------------------
# machines from JSON
# --------------------------------------------------------------------------
def arr(x, dtype=np.int8):
    a = np.array(x, dtype=dtype)
    return a


def pm(rng, shape, p=.5):
    """random +-1 nested lists"""
    if len(shape) == 1:
        return [1 if rng.random() < p else -1 for _ in range(shape[0])]
    return [pm(rng, shape[1:], p) for _ in range(shape[0])]


def pm0(rng, shape, p=.5, missing=0.0):
    if len(shape) == 1:
        return [0 if rng.random() < missing else (1 if rng.random() < p else -1)
                for _ in range(shape[0])]
    return [pm0(rng, shape[1:], p, missing) for _ in range(shape[0])]


def mask(rng, shape, p):
    return [[1 if rng.random() < p else 0 for _ in range(shape[1])]
            for _ in range(shape[0])]


def gen_layer(rng, model, shape, L, p=None, lbda=None):
    p = rng.choice([.2, .5, .5, .8]) if p is None else p
    lay = dict(model=model, L=L,
               factors=[dict(val=pm(rng, (k, L), p)) for k in shape])
    if model == 'MAX-AND':
        lay['lbda'] = gen_rates(rng, L)
    else:
        lay['lbda'] = lbda if lbda is not None else round(
            rng.choice([0.0, .05, .3, 1.0, 1.7, 3.0, 8.0] * 3 + [40.0, 1000.0]) + rng.random() * .01, 6)
    return lay


def gen_rates(rng, L):
    rates = [round(rng.uniform(.15, .98), 4) for _ in range(L)]
    if L > 1 and rng.random() < .2:
        rates[-1] = rates[0]
    base = round(min(rates or [.5]) * rng.uniform(.05, .95), 4)
    return rates + [max(base, .001)]


def build(spec, Machine=None):
    """
    Build a machine from a JSON spec (call inside a World). Returns
    (machine, data matrix, layers). The spec contains all values, hence the
    construction draws are irrelevant.
    """
    import lom
    m = lom.Machine()
    # further data with layers of their own
    side = spec.get('side')
    if side and side.get('first'):
        component(m, side)
    data, layers = component(m, spec)
    if side and not side.get('first'):
        component(m, side)
    if spec.get('anneal'):
        m.anneal = True
    return m, data, layers


def component(m, spec):
    data = None
    d = spec.get('data')
    if d is not None:
        val = d['array'] if 'array' in d else layout(arr(d['val']), d.get('as'))
        if d.get('by') == 'layer':
            # data of a layer that was created from a shape
            ls = spec['layers'][0]
            first = m.add_layer(latent_size=ls['L'], shape=val.shape, model=ls['model'])
            data = first.child
            data.val = -val if first.invert_data else val
            data.fixed = True
        elif d.get('by') == 'shape':
            data = m.add_matrix(shape=val.shape, fixed=d.get('fixed', True))
            data.val = val
        else:
            data = m.add_matrix(val=val, fixed=d.get('fixed', True))
        if 'prior' in d:
            data.bernoulli_prior = d['prior']
        if d.get('fixed_entries') is not None:
            mark(data, d['fixed_entries'])
    layers = []
    for ls in spec['layers']:
        c = ls.get('child', 'data')
        child = data if c == 'data' else layers[c[0]].factors[c[1]]
        if d and d.get('by') == 'layer' and not layers:
            lay = first
        else:
            lay = m.add_layer(latent_size=ls['L'], child=child, model=ls['model'])
        layers.append(lay)
        set_layer(lay, ls)
    return data, layers


def layout(a, how):
    """the same values in another type or memory layout"""
    if how in ('float64', 'int64', 'float32', 'int16'):
        return a.astype(how)
    if how in ('float64F', 'int16F'):
        return np.asfortranarray(a.astype(how[:-1]))
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'view':
        big = np.full(tuple(2 * k for k in a.shape), 7, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    return a


def mark(f, marks):
    """fix entries: some users assign an array, others change the one there is"""
    a = arr(marks)
    if int(a.sum()) % 2 and isinstance(f.fixed_entries, np.ndarray) and f.fixed_entries.shape == a.shape:
        f.fixed_entries[...] = a
    else:
        f.fixed_entries = a


def set_layer(lay, ls):
    if ls.get('lbda') is not None:
        lay.lbda.val = (np.array(ls['lbda'], dtype=float)
                        if isinstance(ls['lbda'], list) else ls['lbda'])
    if ls.get('lbda_fixed'):
        lay.lbda.fixed = True
    if ls.get('beta'):
        lay.lbda.beta_prior = tuple(ls['beta'])
    if ls.get('auto_clean'):
        lay.auto_clean = True
    if ls.get('auto_reset'):
        lay.auto_reset = True
    if ls.get('alpha') is not None:
        lay.alpha = ls['alpha']
    for f, fs in zip(lay.factors, ls['factors']):
        if fs.get('val') is not None:
            f.val = arr(fs['val'])
        if fs.get('fixed'):
            f.fixed = True
        if fs.get('fixed_entries') is not None:
            mark(f, fs['fixed_entries'])
        if fs.get('prior') is not None:
            f.bernoulli_prior = fs['prior']


def stash(m):
    """values of everything, as copies"""
    return ([np.array(x.val, copy=True) for x in m.members],
            [np.array(x.val, copy=True) for x in m.lbdas])


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def is_pm1(v):
    v = np.asarray(v)
    return bool(np.all((v == 1) | (v == -1)))


def check_valid(m, where, dtypes=None, qdom=True):
    """C06 invariant over the whole machine"""
    for li, lay in enumerate(m.layers):
        L = None
        for fi, f in enumerate(lay.factors):
            v = f.val
            if not isinstance(v, np.ndarray) or v.ndim != 2:
                raise Violation('%s: layer %d factor %d is no matrix' % (where, li, fi))
            if v.dtype != np.int8:
                raise Violation('%s: layer %d factor %d has type %s' % (where, li, fi, v.dtype))
            if not is_pm1(v):
                raise Violation('%s: layer %d factor %d holds values %s' % (
                    where, li, fi, np.unique(v).tolist()))
            if L is None:
                L = v.shape[1]
            if v.shape[1] != L:
                raise Violation('%s: layer %d factors have latent sizes %s' % (
                    where, li, [g.val.shape for g in lay.factors]))
            if v.shape[0] != lay.child.val.shape[fi]:
                raise Violation('%s: layer %d factor %d has %d rows for data of shape %s' % (
                    where, li, fi, v.shape[0], lay.child.val.shape))
        lb = np.asarray(lay.lbda.val, dtype=float)
        if not np.all(np.isfinite(lb)):
            raise Violation('%s: layer %d dispersion %s' % (where, li, lb.tolist()))
        if lay.model == 'MAX-AND':
            if lb.shape != (L + 1,) or np.any(lb <= 0) or np.any(lb >= 1):
                raise Violation('%s: layer %d rates %s for latent size %d' % (
                    where, li, lb.tolist(), L))
        else:
            if lb.shape != () or lb < 0:
                raise Violation('%s: layer %d dispersion %s' % (where, li, lb.tolist()))
        if lay.model == 'qL-AND' and qdom:
            q = lay.q.val
            if q.shape != (1, lay.child.val.shape[1]) or np.any(q < 1):
                raise Violation('%s: quorum values %s' % (where, q.tolist()))
    for x in m.matrices:
        v = x.val
        if not np.all((v == 1) | (v == -1) | (v == 0)):
            raise Violation('%s: data holds values %s' % (where, np.unique(v).tolist()))


def infer_args(sc):
    return {k: sc[k] for k in ('no_samples', 'convergence_window',
                               'convergence_eps', 'burn_in_min', 'burn_in_max',
                               'print_step', 'fix_lbda_iters') if k in sc}


# --------------------------------------------------------------------------
# random machines
# --------------------------------------------------------------------------
KINDS = ('2d', '2d', '2d', '3d', '3d', 'max', 'max', 'layered', 'layered',
         'twodata', 'free', 'free')


def lbda0(rng):
    return round(rng.choice([0.0, .05, .3, 1.0, 1.7, 3.0] * 3 + [40.0, 1000.0]) + rng.random() * .01, 6)


def gen_machine(rng, kinds=KINDS, missing=(0, 0, .15, .5), mx=6, minsize=1, maxL=4,
                priors=.4, fixing=0.0, names=None, minL=1):
    """
    Random machine. Layers on one data matrix, layers on factors, unfixed
    data; fixed matrices, entries and dispersions with probability fixing.
    """
    kind = rng.choice(kinds)
    names = names or ref.FAMILIES
    K = 2
    if kind == '3d' or (kind == 'layered' and rng.random() < .3):
        K = 3
    m = mx if K == 2 else max(minsize, min(3, mx))
    shape = [rng.randint(minsize, m) for _ in range(K)]
    # data: noisy product or pure noise
    model = rng.choice(names)
    if kind == 'max':
        model = 'MAX-AND'
    elif kind == 'ibp':
        model = 'OR-AND-IBP'
    elif kind == 'ql':
        model = 'qL-AND'
    L = rng.randint(minL, maxL if K == 2 else max(minL, min(3, maxL)))
    lay = gen_layer(rng, model, shape, L, lbda=lbda0(rng) if kind != 'max' else None)
    miss = rng.choice(missing)
    if kind == 'free':
        miss = 0.0
    d = gen_data(rng, model, shape, lay, miss)
    spec = dict(kind=kind, data=dict(val=d, fixed=kind != 'free'), layers=[lay])
    if kind == 'free' and rng.random() < .5:
        spec['data']['prior'] = round(rng.uniform(.1, .9), 3)
    if kind in ('layered',) or (kind == 'free' and rng.random() < .3):
        nup = rng.choice([1, 1, 2])
        fs = rng.sample(range(K), min(nup, K))
        for k in fs:
            L2 = rng.randint(1, 3)
            up = gen_layer(rng, rng.choice(ref.FAMILIES), [shape[k], L], L2,
                           lbda=lbda0(rng))
            up['child'] = [0, k]
            spec['layers'].append(up)
        if K == 2 and nup == 1 and rng.random() < .3:
            up = gen_layer(rng, rng.choice(ref.FAMILIES), [shape[fs[0]], L],
                           rng.randint(1, 3), lbda=lbda0(rng))
            up['child'] = [0, fs[0]]
            spec['layers'].append(up)
    if kind == 'twodata' or (kind == 'free' and K == 2 and rng.random() < .4):
        up = gen_layer(rng, rng.choice(ref.FAMILIES), shape, rng.randint(1, 3),
                       lbda=lbda0(rng))
        # layers of the same data need the same orientation of them
        if lay['model'] in ref.ALL_NAMES and ref.canon(lay['model'])[1] < 0:
            lay['model'] = ref.canon(lay['model'])[0]
        spec['layers'].append(up)
    for l in spec['layers']:
        for f in l['factors']:
            # the first factor of the non-parametric model has another prior
            if model == 'OR-AND-IBP' and f is l['factors'][0]:
                continue
            if rng.random() < priors:
                f['prior'] = rng.choice([.5, .1, .3, .8, .95])
    if model not in ('MAX-AND',):
        for l in spec['layers']:
            if rng.random() < .3:
                l['beta'] = rng.choice([[1, 1], [2, 5], [10, 1], [.5, .5], [30, 30]])
    if fixing:
        if kind == 'free' and rng.random() < .5:
            spec['data']['fixed_entries'] = mask(rng, shape, rng.choice([.1, .5, .9, 1]))
        for l in spec['layers']:
            if rng.random() < fixing:
                l['lbda_fixed'] = True
            for f in l['factors']:
                if rng.random() < fixing:
                    f['fixed'] = True
                if rng.random() < 2 * fixing:
                    f['fixed_entries'] = mask(
                        rng, (len(f['val']), len(f['val'][0])),
                        rng.choice([.1, .5, .9, 1]))
    return spec


def gen_data(rng, model, shape, lay, miss):
    x = rng.random()
    if x < .5:
        return pm0(rng, shape, rng.choice([.2, .5, .8]), miss)
    name = {'MAX-AND': 'OR-AND', 'qL-AND': 'OR-AND'}.get(model, model)
    L = lay['L']
    F = [arr(pm(rng, (k, L), .5)) for k in shape]
    P = ref.product(name, F)
    noise = rng.choice([0, .1, .3])

    def cell(v):
        if isinstance(v, list):
            return [cell(w) for w in v]
        if rng.random() < miss:
            return 0
        return -v if rng.random() < noise else v
    return cell(P.tolist())


def any_layout(rng, d, p=.12):
    """the caller's array has another type or memory layout"""
    if rng.random() < p:
        d['as'] = rng.choice(['float64', 'int64', 'float32', 'int16', 'float64F', 'int16F', 'F', 'view', 'reversed',
                              'readonly'])
        if not d.get('fixed', True) and d['as'] == 'readonly':
            d['as'] = 'F'


def other_ways(rng, spec, p=.06, side=.08):
    """create the data, or the first layer, from a shape; other layouts; more data"""
    d = spec['data']
    if rng.random() < p:
        d['by'] = 'layer' if d['fixed'] and rng.random() < .5 else 'shape'
    else:
        any_layout(rng, d, 2 * p)
    if rng.random() < side:
        more_data(rng, spec)
    return spec


def more_data(rng, spec, kinds=KINDS + ('ql',)):
    """the machine has another data matrix with layers of its own"""
    s = gen_machine(rng, kinds, mx=3, maxL=2, fixing=rng.choice([0, .3]))
    spec['side'] = dict(kind=s['kind'], data=s['data'], layers=s['layers'])
    if rng.random() < .4:
        spec['side']['first'] = True


def gen_run(rng, small=True, **over):
    """arguments of one call of infer"""
    d = dict(no_samples=rng.choice([1, 2, 3, 5]),
             burn_in_min=rng.choice([0, 0, 1, 2, 4]),
             burn_in_max=rng.choice([0, 1, 3, 6, 9]),
             convergence_window=rng.choice([2, 3, 4, 5]),
             convergence_eps=rng.choice([0.0, 1e-4, .01, .1, .5]),
             print_step=rng.choice([1, 2, 3, 10]))
    d.update(over)
    return d


RUN_KEYS = ('no_samples', 'burn_in_min', 'burn_in_max', 'convergence_window',
            'convergence_eps', 'print_step', 'fix_lbda_iters')


def rargs(d):
    return {k: d[k] for k in RUN_KEYS if k in d}


def spec_size(spec):
    """rough number of entries and of updated objects"""
    e = o = 0
    for l in spec['layers']:
        for f in l['factors']:
            e += len(f['val']) * len(f['val'][0])
            o += 1
        o += 1
    d = spec.get('data')
    if d is not None and not d.get('fixed', True) and 'val' in d:
        e += np.size(d['val'])
        o += 1
    if spec.get('side'):
        e2, o2 = spec_size(spec['side'])
        e, o = e + e2, o + o2
    return e, o


def updates_seen():
    """whether single updates of matrices can be observed in this tree"""
    import lom
    if 'seen' not in _UPDATES:
        W = World(seed=1)

        def one():
            m = lom.Machine()
            m.add_layer(latent_size=1, child=m.add_matrix(np.ones((2, 2), dtype=np.int8), fixed=True))
            m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
        call(W, 'a run', one)
        _UPDATES['seen'] = W.count['update'] >= 2
    return _UPDATES['seen']


_UPDATES = {}


def gen_fault(rng, spec, op, kinds=('draw', 'update', 'line', 'alloc', 'write')):
    e, o = spec_size(spec)
    sweeps = op.get('no_samples', 3) + max(op.get('burn_in_min', 0),
                                           min(op.get('burn_in_max', 0), 12))
    sweeps = max(1, sweeps)
    kind = rng.choice(kinds)
    est = dict(draw=e * sweeps, update=o * sweeps, line=e * sweeps * 60,
               alloc=o * (4 + 2 * sweeps), write=2 * (o + 6 + sweeps))[kind]
    if rng.random() < .3:
        est = max(2, est // 8)
    return dict(kind=kind, at=rng.randint(1, max(1, est)))
