"""C02 layered machines combine child likelihood and every parent exactly"""
import numpy as np
from .. import ref
from ..common import any_layout, gen_layer, pm, pm0, mask, call, Violation, arr
from ..kernel import Rig, gen_run
from ..seams import World

ID = 'C02'
RUNS = dict(quick=6600, thorough=660000)
RULE = ('one evaluation = one simulated layered machine (unfixed data with one or two parent '
        'layers; factor of a 2-D or 3-D layer with one or two parent layers; all family pairings) '
        'driven at the exact acceptance thresholds of single entries and in whole sweeps under '
        'constant draws; non-trivial = distinct log of values reached by a sweep')
MEASURE = 'digest of draws, schedule and values of a sweep'
ASSUMPTIONS = ['parent layers are two-way, as the code requires']

TOPO = ['data1', 'data2', 'z1', 'u1', 'z2', 'zu', '3d1', 'deep', 'z1', 'z2']


def gen_large(rng):
    """a long axis below the upper layer, or very many latent dimensions in it"""
    fam = lambda: rng.choice(ref.FAMILIES)
    how = rng.choice(['long', 'long', 'deep', 'data', 'mid', 'mid'])
    p, q = (0, .05), (.5, .95)
    n = rng.randint(129, 300) if how not in ('deep', 'mid') else rng.randint(1, 3)
    shape = [n, rng.randint(1, 2)]
    L, M = rng.randint(1, 2), rng.randint(128, 180) if how == 'deep' else rng.randint(5, 9) if how == 'mid' else rng.randint(1, 2)
    if how == 'mid':
        L = rng.randint(3, 9)
    lam = lambda: round(rng.choice([.005, .02, .1] if how != 'mid' else [.1, .4, 1.]) * rng.uniform(.5, 1.5), 5)
    fp = lambda: rng.choice([0, .05, .5, .95, 1])
    if how == 'data':
        k = rng.randrange(2)
        rng.shuffle(shape)
        layers = [gen_layer(rng, fam(), shape, L, p=fp(), lbda=lam()) for _ in range(1 + k)]
        data = dict(val=pm(rng, shape, fp()), fixed=False, prior=rng.choice([.5, .2]))
        topo = 'data%d' % (1 + k)
    else:
        k = rng.randrange(2)
        shape = shape[::-1] if k else shape
        data = dict(val=pm0(rng, shape, fp(), rng.choice([0, .3])), fixed=True)
        layers = [gen_layer(rng, fam(), shape, L, p=fp(), lbda=lam())]
        layers.append(gen_layer(rng, fam(), (n, L), M, p=rng.choice([.02, .5, .98]) if M > 9 else fp(), lbda=lam()))
        layers[1]['child'] = [0, k]
        topo = 'u1' if k else 'z1'
    ops = [dict(op='entry', r=rng.random(), p=rng.random()) for _ in range(6)]
    ops.append(dict(op='sweep', u=round(rng.random(), 7), seed=rng.randrange(10 ** 6), few=1))
    return dict(topo=topo, spec=dict(data=data, layers=layers), seed=rng.randrange(10 ** 6), ops=ops, large=how)


def gen_unusual(rng):
    """architectures the samplers have no formula for"""
    how = rng.choice(['three', 'three', 'three_data', 'own', '3d2', 'kind'])
    K = 3 if how == '3d2' else 2
    shape = [rng.randint(1, 3) for _ in range(K)]
    L = rng.randint(1, 3)
    fam = lambda: rng.choice(ref.FAMILIES)
    base = rng.choice(['qL-AND', 'OR-AND-IBP', 'MAX-AND']) if how == 'own' else fam()
    lays = [dict(model=base, L=L)]
    k = rng.randrange(K)
    n = dict(three=3, three_data=2, own=1, kind=1).get(how, 2)
    for j in range(n):
        lays.append(dict(model=rng.choice(['qL-AND', 'OR-AND-IBP', 'MAX-AND']) if how == 'kind' else fam(),
                         L=rng.randint(1, 2), child='data' if how == 'three_data' else [0, k]))
    return dict(unusual=how, k=k, data=pm(rng, shape), lays=lays, strong=rng.randrange(n),
                seed=rng.randrange(10 ** 6), before=rng.random() < .3, one=rng.random() < .5)


def run_unusual(sc, st):
    """refused before anything has been changed, or every parent counts"""
    import lom
    from ..common import lom_frames
    st.add('unusual.' + sc['unusual'])
    free = sc['unusual'] == 'three_data'
    m = lom.Machine()
    W = World(seed=sc['seed'])

    def go():
        data = m.add_matrix(val=arr(sc['data']), fixed=not free)
        layers = []
        for ls in sc['lays']:
            c = ls.get('child', 'data')
            layers.append(m.add_layer(latent_size=ls['L'], model=ls['model'],
                                      child=data if c == 'data' else layers[0].factors[sc['k']]))
            if len(layers) == 1 and sc['before']:
                m.infer(no_samples=1, burn_in_min=1, burn_in_max=1, convergence_window=3)
        return data, layers
    with W:
        try:
            data, layers = go()
        except Exception as e:
            if not lom_frames(e):
                raise
            st.add('unusual_refused')
            return
    child = data if free else layers[0].factors[sc['k']]
    ups = layers if free else layers[1:]
    for lay in layers:
        lay.lbda.fixed = True
        for f in lay.factors:
            f.fixed = True
        if isinstance(lay.lbda.val, float):
            lay.lbda.val = 0.0
    if getattr(layers[0], 'q', None) is not None:
        layers[0].q.fixed = True
    child.fixed = False
    ups[sc['strong']].lbda.val = 60.0
    if not sc['one']:
        child.val[...] = -1
    before = [np.array(x.val) for x in m.members]
    strong = [np.array(f.val) for f in ups[sc['strong']].factors]
    W = World(seed=sc['seed'] + 1)
    with W:
        try:
            m.infer(no_samples=1, burn_in_min=1, burn_in_max=1, convergence_window=3)
            refused = False
        except Exception as e:
            if not lom_frames(e):
                raise
            refused = True
    W.log(*[x.val for x in m.members])
    st.world(W)
    if refused:
        st.add('unusual_refused')
        for j, (x, v) in enumerate(zip(m.members, before)):
            if x.val.shape != v.shape or not np.array_equal(x.val, v):
                raise Violation('an architecture that is refused (%s on %s) changed matrix %d' % (
                    [l['model'] for l in sc['lays'][1:]], sc['lays'][0]['model'], j))
        return
    model = [l for l in (sc['lays'] if free else sc['lays'][1:])][sc['strong']]['model']
    want = ref.product(model, strong) if model in ref.FAMILIES else None
    if want is None or not np.array_equal(want, child.val):
        raise Violation('%s: the parent layer %d (%s, dispersion 60) was ignored by the update of its child' % (
            sc['unusual'], sc['strong'], model))


def gen_names(rng):
    """further layers with models of any name, on data that have a layer or on factors"""
    how = rng.choice(['fixed', 'fixed', 'free', 'factor'])
    shape = [rng.randint(1, 4), rng.randint(1, 4)]
    if rng.random() < .2 and how == 'fixed':
        shape.append(rng.randint(1, 3))
    L = rng.randint(1, 3)
    lam = lambda: round(rng.choice([.05, .3, .8, 1.6]) * rng.uniform(.5, 1.5), 5)
    name = lambda: rng.choice(ref.ALL_NAMES)
    data = dict(val=pm0(rng, shape, .5, 0 if how == 'free' else rng.choice([0, .3])), fixed=how != 'free')
    first = name()
    same = [n for n in ref.ALL_NAMES if ref.canon(n)[1] == ref.canon(first)[1]]
    other = rng.choice(same) if rng.random() < .5 else name()
    layers = [gen_layer(rng, first, shape, L, lbda=lam())]
    if how == 'factor':
        k = rng.randrange(2)
        layers.append(gen_layer(rng, other, (shape[k], L), rng.randint(1, 2), lbda=lam()))
        layers[1]['child'] = [0, k]
    else:
        layers.append(gen_layer(rng, other, shape, rng.randint(1, 3), lbda=lam()))
    ops = [dict(op='entry', r=rng.random(), p=rng.random()) for _ in range(8)]
    return dict(names=how, spec=dict(data=data, layers=layers), seed=rng.randrange(10 ** 6), ops=ops)


def run_names(sc, st):
    from ..common import build, lom_frames
    spec = sc['spec']
    st.add('names.' + sc['names'])
    names = [l['model'] for l in spec['layers']]
    cn = [ref.canon(n) for n in names]
    mixed = cn[1][1] < 0 if sc['names'] == 'factor' else cn[0][1] != cn[1][1]
    if mixed:
        W = World(seed=sc['seed'])
        with W:
            try:
                build(spec)
            except Exception as e:
                if not lom_frames(e):
                    raise
                st.add('names_refused')
                W.log(*names)
                st.world(W)
                return
    rig = Rig(spec, st, sc['seed'])
    X0 = np.array(spec['data']['val'])
    pos = {id(x): j for j, x in enumerate(rig.mats)}
    fidx = [[pos[id(f)] for f in lay.factors] for lay in rig.layers]
    dj = pos[id(rig.data)]
    if sc['names'] == 'fixed' and not mixed and not np.array_equal(rig.data.val, cn[0][1] * X0):
        raise Violation('data of two layers %s are %s' % (names, rig.data.val.tolist()))
    movable = [j for j in rig.movable if not (mixed and sc['names'] == 'free' and j == dj)]
    if mixed and sc['names'] == 'free':
        return

    def child(vals, li):
        """what the layer describes, in the orientation of its canonical model"""
        if sc['names'] == 'factor' and li == 1:
            return cn[1][1] * vals[fidx[0][spec['layers'][1]['child'][1]]]
        return vals[dj] if sc['names'] == 'free' else cn[li][1] * X0

    def lo(vals, mi, idx):
        tot = 0.0
        for li in range(2):
            if mi in fidx[li]:
                tot += ref.likelihood_odds(cn[li][0], [vals[j] for j in fidx[li]], rig.lb[li], child(vals, li),
                                           fidx[li].index(mi), idx[0], idx[1])
            above = sc['names'] == 'factor' and li == 1 and mi == fidx[0][spec['layers'][1]['child'][1]]
            if above or (sc['names'] == 'free' and mi == dj):
                F = [vals[fidx[li][a]][idx[a]:idx[a] + 1] for a in range(2)]
                tot += (cn[li][1] if above else 1) * float(rig.lb[li]) * int(ref.product(cn[li][0], F)[0, 0])
        return tot

    for op in sc['ops']:
        mi = movable[int(op['r'] * 997) % len(movable)]
        idx = np.unravel_index(int(op['p'] * rig.base[mi].size), rig.base[mi].shape)
        idx = tuple(int(q) for q in idx)
        rig.check_entry(mi, idx, lo(rig.base, mi, idx), 1e-7, 'layers %s on %s' % (
            names, dict(factor='a factor', free='free data').get(sc['names'], 'the same data')))


def gen(rng, tier, i):
    x = rng.random()
    if x < .02:
        return gen_unusual(rng)
    if x < .06:
        return gen_names(rng)
    if rng.random() < .03:
        return gen_large(rng)
    topo = TOPO[i % len(TOPO)]
    fam = lambda: rng.choice(ref.FAMILIES)
    lam = lambda: round(rng.choice([.05, .3, .8, 1.6] * 4 + [40.0, 1000.0]) * rng.uniform(.5, 1.5), 5)
    K = 3 if topo == '3d1' else 2
    shape = [rng.randint(1, 3 if K == 3 else 4) for _ in range(K)]
    layers = []
    L = rng.randint(1, 3)
    dfixed = True
    if topo in ('data1', 'data2'):
        dfixed = False
        data = dict(val=pm(rng, shape), fixed=False,
                    prior=rng.choice([.5, .2, .8]))
        for _ in range(1 if topo == 'data1' else 2):
            layers.append(gen_layer(rng, fam(), shape, rng.randint(1, 3), lbda=lam()))
    else:
        data = dict(val=pm0(rng, shape, .5, rng.choice([0, .3])), fixed=True)
        layers.append(gen_layer(rng, fam(), shape, L, lbda=lam()))

        def up(li, fi):
            par = layers[li]
            n = len(par['factors'][fi]['val'])
            lay = gen_layer(rng, fam(), (n, par['L']), rng.randint(1, 3), lbda=lam())
            lay['child'] = [li, fi]
            layers.append(lay)
        if topo == 'z1':
            up(0, 0)
        elif topo == 'u1':
            up(0, 1)
        elif topo == 'z2':
            k = rng.randrange(2)
            up(0, k)
            up(0, k)
        elif topo == 'zu':
            up(0, 0)
            up(0, 1)
        elif topo == '3d1':
            up(0, rng.randrange(3))
        elif topo == 'deep':
            up(0, 0)
            up(1, rng.randrange(2))
    for lay in layers:
        for f in lay['factors']:
            if rng.random() < .4:
                f['prior'] = rng.choice([.5, .15, .35, .8])
    late = rng.random() < .3 and dfixed
    spec = dict(data=data, layers=layers)
    any_layout(rng, spec['data'])
    ops = []
    if late:
        ops.append(dict(op='late', seed=rng.randrange(10 ** 6)))
    if rng.random() < .35:
        ops.append(dict(op='history', iters=rng.randint(1, 3), lbda=[lam() for _ in layers],
                        keep=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    ops += [dict(op='entry', r=rng.random(), p=rng.random()) for _ in range(8)]
    ops += [dict(op='sweep', u=round(rng.random(), 7), seed=rng.randrange(10 ** 6))
            for _ in range(2)]
    if rng.random() < .3:
        ops.append(dict(op='whole', mseed=rng.randrange(10 ** 6), **gen_run(rng)))
    return dict(topo=topo, spec=spec, seed=rng.randrange(10 ** 6), ops=ops)


def run(sc, st):
    import random
    if 'unusual' in sc:
        return run_unusual(sc, st)
    if 'names' in sc:
        return run_names(sc, st)
    spec = sc['spec']
    late = any(o['op'] == 'late' for o in sc['ops'])
    if late:
        # run the machine before its upper layers are added
        rig = LateRig(spec, st, sc['seed'])
    else:
        rig = Rig(spec, st, sc['seed'])
    st.add('topology.' + sc['topo'])
    if sc.get('large'):
        st.add('large.' + sc['large'])
    mats = rig.mats
    pos = {id(x): j for j, x in enumerate(mats)}
    info = {}
    for li, lay in enumerate(rig.layers):
        ls = spec['layers'][li]
        fs = [pos[id(f)] for f in lay.factors]
        c = ls.get('child', 'data')
        cj = pos[id(rig.data)] if c == 'data' else pos[id(rig.layers[c[0]].factors[c[1]])]
        for k, j in enumerate(fs):
            p = ls['factors'][k].get('prior')
            info.setdefault(j, dict(parents=[], prior=.5))
            info[j].update(own=(li, k), prior=.5 if p is None else p)
        info.setdefault(cj, dict(parents=[], prior=.5))
        info[cj]['parents'].append(li)
    dj = pos[id(rig.data)]
    info.setdefault(dj, dict(parents=[], prior=.5))
    info[dj]['prior'] = spec['data'].get('prior', .5)

    fidx = [[pos[id(f)] for f in lay.factors] for lay in rig.layers]
    child = []
    for li, ls in enumerate(spec['layers']):
        c = ls.get('child', 'data')
        child.append(dj if c == 'data' else fidx[c[0]][c[1]])

    def lo(vals, mi, idx):
        d = info[mi]
        tot = ref.logit(d['prior'])
        if 'own' in d:
            li, k = d['own']
            tot += ref.likelihood_odds(spec['layers'][li]['model'],
                                       [vals[j] for j in fidx[li]], rig.lb[li],
                                       vals[child[li]], k, idx[0], idx[1])
        for li in d['parents']:
            F = [vals[fidx[li][a]][idx[a]:idx[a] + 1] for a in range(len(fidx[li]))]
            tot += float(rig.lb[li]) * int(ref.product(spec['layers'][li]['model'], F)[(0,) * len(F)])
        return tot

    movable = rig.movable
    kind = 'metropolised'
    for op in sc['ops']:
        if op['op'] == 'history':
            # an earlier run with all priors turned; afterwards, other dispersions
            W = World(seed=op['seed'])
            keep = [x.bernoulli_prior for x in mats]
            for j in movable:
                if keep[j] is not None:
                    mats[j].bernoulli_prior = 1 - keep[j]
                mats[j].fixed = False
                mats[j].fixed_entries = np.zeros(mats[j].val.shape, dtype=np.int8)
            for lay in rig.layers:
                lay.lbda.fixed = op['keep']
            call(W, 'earlier run', rig.m.infer, no_samples=op['iters'], burn_in_min=1,
                 burn_in_max=2, convergence_window=3)
            for x, p in zip(mats, keep):
                x.bernoulli_prior = p
            rig.take_state()
            rig.lb = list(op['lbda'])
            st.add('histories')
        elif op['op'] == 'whole':
            r = random.Random(op['mseed'])
            free = [j for j in movable if r.random() < .85] or movable[:1]
            masks = {j: arr(mask(r, rig.base[j].shape, r.choice([0, 0, .3]))) for j in movable}
            rig.check_run(free, masks, op, lo, '%s run of %s' % (sc['topo'], [l['model'] for l in spec['layers']]), kind)
        elif op['op'] == 'entry':
            # prefer matrices that have parents
            cand = [j for j in movable if info[j]['parents']] if op['r'] < .75 else movable
            mi = cand[int(op['r'] * 997) % len(cand)]
            size = rig.base[mi].size
            idx = np.unravel_index(int(op['p'] * size), rig.base[mi].shape)
            idx = tuple(int(q) for q in idx)
            what = '%s matrix of %s' % (sc['topo'], [l['model'] for l in spec['layers']])
            kd = rig.check_entry(mi, idx, lo(rig.base, mi, idx), 1e-7, what)
            if kd != 'metropolised':
                kind = kd
        elif op['op'] == 'sweep':
            if kind == 'other':
                continue
            r = random.Random(op['seed'])
            free = [j for j in movable if r.random() < .8][:4] or movable[:1]
            if op.get('few'):
                free = sorted(movable, key=lambda j: rig.base[j].size)[:3]
                masks = {j: np.ones(rig.base[j].shape, int) for j in movable}
                for j in movable:
                    for _ in range(4):
                        masks[j].flat[r.randrange(masks[j].size)] = 0
            else:
                masks = {j: arr(mask(r, rig.base[j].shape, r.choice([0, .3]))) for j in movable}
            rig.check_sweep(free, masks, op['u'], lo, '%s sweep' % sc['topo'], kind)
            rig.take_state()


class LateRig(Rig):
    """upper layers are added only after a first run"""

    def __init__(self, spec, st, seed):
        import lom
        from ..common import build, set_layer, arr as A
        self.spec, self.st, self.seed, self.k, self.forms = spec, st, seed, 0, {}
        first = dict(spec, layers=[l for l in spec['layers'] if l.get('child', 'data') == 'data'][:1])

        def go():
            m, data, layers = build(first)
            m.infer(no_samples=1, burn_in_min=1, burn_in_max=1, convergence_window=3)
            for f, fs in zip(layers[0].factors, spec['layers'][0]['factors']):
                f.val = A(fs['val'])
            layers[0].lbda.val = spec['layers'][0]['lbda']
            for ls in spec['layers'][1:]:
                c = ls.get('child', 'data')
                ch = data if c == 'data' else layers[c[0]].factors[c[1]]
                lay = m.add_layer(latent_size=ls['L'], child=ch, model=ls['model'])
                set_layer(lay, ls)
                layers.append(lay)
            return m, data, layers
        st.add('late_layers')
        self.m, self.data, self.layers = call(self.world(None), 'building the machine', go)
        self.mats = list(self.m.members)
        self.take_state()
        self.movable = [i for i, x in enumerate(self.mats) if not x.fixed]
