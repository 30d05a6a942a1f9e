"""C10 the same seed reproduces the same result"""
import numpy as np
from .. import ref, nodes
from ..common import gen_machine, gen_run, rargs, arr, build, Violation, mask
from .. import seams

ID = 'C10'
RUNS = dict(quick=1000, thorough=100000)
RULE = ('one evaluation = one program (seed, build one or two machines from random initial factors, run inference, '
        'compute outputs; some split or add noise to the data first) executed in freshly forked processes of 3-4 '
        'simulated hosts that differ in hash seed, operating system entropy, memory contents, clock, terminal, '
        'garbage collection and earlier work, some of it aborted by faults; everything it reports must be equal bit '
        'by bit; non-trivial = distinct program and result')
MEASURE = 'digest of program, hosts and result'
ASSUMPTIONS = ['one machine architecture and one set of library versions',
               'wall-clock time is simulated through the time module only']
REAL = ['lom.machine', 'lom.*_wrappers', 'lom._numba kernels', 'lom.auxiliary_functions', 'lom.experiments',
        'numpy global random generator', 'processes, address space and hash seeds']
STUB = ['operating system entropy', 'clock', 'terminal', 'memory contents of np.empty', 'numba compiler (off)']
TECH = ('point_estimate', 'factor_map', 'factor_mean', 'mc')


def gen_program(rng, small=False):
    ms = []
    for _ in range(1 if small or rng.random() < .75 else 2):
        kinds = ('2d', '2d', '3d', 'max', 'layered', 'twodata', 'free', 'ibp', 'ibp', 'ql')
        spec = gen_machine(rng, kinds, mx=3 if small else rng.choice([3, 5, 7]), maxL=3,
                           fixing=rng.choice([0, 0, .2]), names=rng.choice([ref.FAMILIES, ref.ALL_NAMES]))
        if any(l.get('child') for l in spec['layers']):
            for l in spec['layers']:
                if l['model'] not in ref.FAMILIES and l['model'] != 'MAX-AND':
                    l['model'] = rng.choice(ref.FAMILIES)
        if spec['kind'] == 'ibp':
            for f in spec['layers'][0]['factors']:
                f.pop('fixed', None)
                f.pop('fixed_entries', None)
        x = rng.random()
        for l in spec['layers']:
            if x < .8:
                l.pop('lbda', None)
            for f in l['factors']:
                if x < .8 and not f.get('fixed'):
                    f.pop('val', None)
            if rng.random() < .2 and spec['kind'] in ('2d', '3d', 'max', 'twodata'):
                l['auto_clean'] = True
            if rng.random() < .2 and spec['kind'] in ('2d', 'max'):
                l['auto_reset'] = True
        if rng.random() < .2 and spec['kind'] not in ('max',):
            spec['anneal'] = True
        m = dict(spec=spec, ops=[gen_run(rng, no_samples=rng.choice([1, 2, 4])) for _ in range(
            1 if small else rng.choice([1, 1, 2]))], tech=rng.sample(TECH, 2))
        if not small and spec['kind'] in ('2d', '3d') and rng.random() < .2:
            m['split'] = rng.choice([.1, .3, .5])
        ms.append(m)
    p = dict(seed=rng.randrange(2 ** 31), machines=ms)
    if rng.random() < (.15 if small else .5):
        p['data'] = [dict(fn=rng.choice(DATA), p=rng.choice([.1, .3, .5]), n=rng.randint(4, 9),
                          seed=rng.choice([None, None, 3])) for _ in range(rng.choice([1, 2, 3]))]
    return p


DATA = ('noise', 'biased', 'noise3', 'tensor', 'split', 'balanced', 'pairs', 'old', 'orm')


def make_data(t):
    """one call of a data helper, its result as arrays"""
    import lom.experiments as ex
    import lom.auxiliary_functions as aux
    n, p = t['n'], t['p']
    X = (2 * (np.arange(n * n).reshape(n, n) * 7 % 5 % 2) - 1).astype(np.int8)
    f = t['fn']
    if f == 'noise':
        r = aux.add_bernoulli_noise_2d(X, p, seed=t['seed'])
    elif f == 'biased':
        r = aux.add_bernoulli_noise_2d_biased(X, p, p / 2, seed=t['seed'])
    elif f == 'noise3':
        r = aux.add_bernoulli_noise(np.array([X, -X]) == 1, p)
    elif f == 'tensor':
        r = ex.generate_random_tensor(2, (3, 4, n), noise=p)[:3]
        r = [r[0], r[1]] + list(r[2])
    elif f == 'orm':
        r = aux.generate_orm_product(N=n, D=5, L=2)
    elif f == 'pairs':
        r = aux.split_test_train(X, p=p)
    elif f == 'old':
        r = ex.split_tensor_train_test_old(X, split=p)
    else:
        r = ex.split_train_test(X, split=p, balanced=f == 'balanced')
    r = list(r) if isinstance(r, (list, tuple)) else [r]
    return [np.array(x) for x in r] + [np.array(np.random.rand())]


def gen_variant(rng):
    return dict(seed=rng.randrange(10 ** 9), poison=rng.choice([None, 'zero', 'big', 'rand', 'nan', 'last']),
                litter=rng.random() < .5, gc=rng.choice([None, None, 'off', 'often']), tty=rng.random() < .5,
                columns=rng.choice([None, 20, 80, 200]))


def gen(rng, tier, i):
    p = gen_program(rng)
    hosts = [dict(hash=0, variant=dict(seed=1), before=[])]
    for k in range(rng.choice([2, 2, 3])):
        before = []
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2])):
                b = dict(program=p if rng.random() < .25 else gen_program(rng, True))
                if rng.random() < .35:
                    b['fault'] = dict(kind=rng.choice(['draw', 'update', 'alloc', 'write']),
                                      at=rng.choice([2, 5, 10, 20, 50, 150]))
                before.append(b)
        hosts.append(dict(hash=rng.choice([0, 1, 7, 1234]), variant=gen_variant(rng), before=before))
    return dict(program=p, hosts=hosts)


def shrink(sc):
    hs = sc['hosts']
    if len(hs) > 2:
        for k in range(1, len(hs)):
            yield dict(sc, hosts=hs[:k] + hs[k + 1:])
    for k in range(1, len(hs)):
        h = hs[k]
        for j in range(len(h['before'])):
            yield dict(sc, hosts=hs[:k] + [dict(h, before=h['before'][:j] + h['before'][j + 1:])] + hs[k + 1:])
        if h['hash'] != 0:
            yield dict(sc, hosts=hs[:k] + [dict(h, hash=0)] + hs[k + 1:])
        v = h['variant']
        for key in v:
            if key != 'seed' and v[key]:
                yield dict(sc, hosts=hs[:k] + [dict(h, variant={a: b for a, b in v.items() if a != key})] + hs[k + 1:])
    p = sc['program']
    for k in range(len(p.get('data', []))):
        yield dict(sc, program=dict(p, data=p['data'][:k] + p['data'][k + 1:]))
    ms = p['machines']
    if p.get('data') and ms:
        yield dict(sc, program=dict(p, machines=[]))
    for k in range(len(ms)):
        if len(ms) > 1:
            yield dict(sc, program=dict(p, machines=ms[:k] + ms[k + 1:]))
        m = ms[k]
        for new in ([dict(m, ops=m['ops'][:-1])] if len(m['ops']) > 1 else []) + (
                [dict(m, tech=m['tech'][:1])] if len(m['tech']) > 1 else []) + (
                [{a: b for a, b in m.items() if a != 'split'}] if 'split' in m else []):
            yield dict(sc, program=dict(p, machines=ms[:k] + [new] + ms[k + 1:]))


def program(p):
    """runs on a host; returns everything a user can read"""
    out = {}
    np.random.seed(p['seed'])
    for k, t in enumerate(p.get('data', [])):
        for j, x in enumerate(make_data(t)):
            out['%s of data helper %d, part %d' % (t['fn'], k, j)] = x
    for k, t in enumerate(p['machines']):
        spec = t['spec']
        if 'split' in t:
            import lom.experiments as ex
            X = arr(spec['data']['val'])
            if np.sum(X != 0) > 2 and np.mean(X != 0) > t['split']:
                X, msk = ex.split_train_test(X, split=t['split'])
                out['hidden entries %d' % k] = np.array(msk)
            spec = dict(spec, data=dict(spec['data'], array=X))
        m, data, layers = build(spec)
        for j, x in enumerate(m.members):
            out['initial matrix %d.%d' % (k, j)] = np.array(x.val)
        for r, op in enumerate(t['ops']):
            m.infer(**rargs(op))
            out['burn-in iterations %d.%d' % (k, r)] = getattr(m, 'burn_in_iters', None)
        for j, x in enumerate(m.members + m.lbdas):
            nm = ('matrix' if j < len(m.members) else 'dispersion') + ' %d.%d' % (k, j)
            out['value of ' + nm] = np.array(x.val)
            out['average of ' + nm] = np.array(x.mean())
            if not x.fixed:
                out['samples of ' + nm] = np.array(x.trace)
        for j, l in enumerate(layers):
            if l.model == 'qL-AND':
                continue
            for te in t['tech']:
                out['output %d.%d by %s' % (k, j, te)] = np.array(l.output(te))
    return out


def run(sc, st):
    base = None
    for k, h in enumerate(sc['hosts']):
        a = nodes.run_on(h['hash'], dict(module='c10', program=sc['program'], variant=h['variant'],
                                         before=h['before']))
        o = a['out']
        st.add('programs', 1 + len(h['before']))
        for n, c in a['count'].items():
            if n == 'faults':
                if c:
                    st.add('fault.earlier_work_aborted', c)
            elif c:
                st.add('events.' + n, c)
        st.add('sweeps', a['count'].get('update', 0))
        st.add('clock_reads', a['clock'])
        if k:
            v = h['variant']
            st.add('fault.other_entropy')
            st.add('fault.clock')
            for key in ('poison', 'litter', 'gc', 'tty', 'columns'):
                if v.get(key):
                    st.add('fault.' + key)
            if h['hash']:
                st.add('fault.hash_seed')
            if h['before']:
                st.add('fault.earlier_work')
        if 'error' in o:
            if o['error'].startswith('harness'):
                raise RuntimeError(o['error'])
            raise Violation('a program failed: %s' % o['error'])
        if base is None:
            base = o
            continue
        if sorted(base) != sorted(o):
            raise Violation('another host reports other quantities: %s' % sorted(set(base) ^ set(o)))
        for key in base:
            if base[key] != o[key]:
                raise Violation('%s differs on another host with the same seed' % key)
    st.add('compared', len(base) * (len(sc['hosts']) - 1))
    st.state(sorted(base.items()))
