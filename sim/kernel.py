"""
Measurement of single conditional updates through the public interface.

A rig holds one machine. trial() fixes everything except one entry of one
matrix, performs exactly one update by infer(no_samples=1, burn_in_min=0,
burn_in_max=0) with every uniform draw equal to u, and returns the new value.
"""
import itertools
import math
import numpy as np
from . import ref
from .common import Violation, build, call, same, arr
from .seams import World

ONE = 1.0 - 2.0 ** -53
ONESTEP = dict(no_samples=1, burn_in_min=0, burn_in_max=0, convergence_window=5)


def gen_run(rng):
    return dict(n=rng.randint(1, 4), burn=rng.choice([0, 1, 1, 3]), seed=rng.randrange(10 ** 6),
                fix_lbda=rng.random() < .15, anneal=rng.random() < .2)


class Rig:
    def __init__(self, spec, st, seed):
        self.spec, self.st, self.seed = spec, st, seed
        self.k = 0
        self.forms = {}
        W = self.world(None)
        self.m, self.data, self.layers = call(W, 'building the machine', build, spec)
        self.mats = list(self.m.members)
        for i, x in enumerate(self.mats):
            if not isinstance(x.val, np.ndarray):
                raise Violation('matrix %d has no value' % i)
        self.base = [np.array(x.val) for x in self.mats]
        self.lb = [np.array(p.val, dtype=float) if np.ndim(p.val) else float(p.val)
                   for p in self.m.lbdas]
        self.movable = [i for i, x in enumerate(self.mats) if not x.fixed]

    def world(self, u):
        self.k += 1
        return World(seed=self.seed + self.k, u=u)

    def take_state(self):
        """current values become the base state"""
        self.base = [np.array(x.val) for x in self.mats]
        self.lb = [np.array(p.val, dtype=float) if np.ndim(p.val) else float(p.val)
                   for p in self.m.lbdas]

    def reset(self, free, masks=None):
        for i, x in enumerate(self.mats):
            x.val = self.base[i].copy()
            x.fixed = i not in free
            if masks is not None and i in masks:
                x.fixed_entries = masks[i].copy()
        for p, v in zip(self.m.lbdas, self.lb):
            p.val = v.copy() if isinstance(v, np.ndarray) else v
            p.fixed = True

    def trial(self, mi, idx, z0, u):
        mk = np.ones(self.base[mi].shape, dtype=np.int8)
        mk[idx] = 0
        keep = self.base[mi][idx]
        self.base[mi][idx] = z0
        try:
            self.reset([mi], {mi: mk})
            W = self.world(u)
            call(W, 'update of one entry', self.m.infer, **ONESTEP)
            self.st.add('sweeps')
            for j, x in enumerate(self.mats):
                v = np.asarray(x.val)
                if v.shape != self.base[j].shape:
                    raise Violation('update changed the shape of matrix %d' % j)
                d = np.argwhere(v != self.base[j])
                for e in d:
                    if not (j == mi and tuple(e) == tuple(idx)):
                        raise Violation(
                            'update of entry %s of matrix %d changed matrix %d at %s' % (
                                tuple(idx), mi, j, tuple(int(q) for q in e)))
            r = int(np.asarray(self.mats[mi].val)[idx])
            if r not in (1, -1):
                raise Violation('update of entry %s gave %d' % (tuple(idx), r))
            return r
        finally:
            self.base[mi][idx] = keep

    def prob_move(self, mi, idx, z0):
        """measured probability of leaving z0: length of {u: moves}"""
        lo = self.trial(mi, idx, z0, 0.0) != z0
        hi = self.trial(mi, idx, z0, ONE) != z0
        if lo == hi:
            return 1.0 if lo else 0.0
        a, b = 0.0, 1.0
        for _ in range(44):
            c = .5 * (a + b)
            if (self.trial(mi, idx, z0, c) != z0) == lo:
                a = c
            else:
                b = c
        t = .5 * (a + b)
        return t if lo else 1 - t

    def check_entry(self, mi, idx, lo, tol, what):
        """
        Detailed balance of the update of one entry. Returns the kind of
        kernel ('metropolised', 'gibbs' or 'other').
        """
        ok = True
        how, up, dn = self.form(mi) or ('metropolised', True, True)
        if how != 'metropolised' or not (up and dn):
            return self.check_other(mi, idx, lo, tol, what, how, up, dn)
        for z0 in (1, -1):
            a = ref.accept(lo, z0)
            if a < 1e-200:
                # smaller than any draw that is not zero
                if self.trial(mi, idx, z0, 1e-9) != z0:
                    ok = False
                    break
                continue
            if a > 1 - 1e-6:
                if self.trial(mi, idx, z0, ONE if abs(lo) > 1e-9 else .5) == z0:
                    ok = False
            else:
                if self.trial(mi, idx, z0, a * (1 - tol)) == z0:
                    ok = False
                if ok and self.trial(mi, idx, z0, min(a * (1 + tol), ONE)) != z0:
                    ok = False
            if not ok:
                break
        self.st.add('entries')
        if ok:
            return 'metropolised'
        return self.measure(mi, idx, lo, tol, what)

    def check_other(self, mi, idx, lo, tol, what, how, up, dn):
        """another kernel, or draws used the other way round"""
        ok = True
        for z0 in (1, -1):
            a = ref.accept(lo, z0) if how == 'metropolised' else ref.gibbs(lo, z0)
            small = dn if z0 == 1 else up
            for v, moves in ((a * (1 - tol) - 1e-9, True), (a * (1 + tol) + 1e-9, False)):
                if 0 <= v <= 1 and (self.trial(mi, idx, z0, min(v if small else 1 - v, ONE)) != z0) != moves:
                    ok = False
        self.st.add('entries')
        return how if ok else self.measure(mi, idx, lo, tol, what)

    def measure(self, mi, idx, lo, tol, what):
        pu = self.prob_move(mi, idx, -1)      # -1 -> +1
        pd = self.prob_move(mi, idx, 1)       # +1 -> -1
        self.st.add('entries_measured_by_bisection')
        good = False
        if pu > 0 and pd > 0:
            # bisection has absolute resolution 2**-44
            err = 1e-10 / pu + 1e-10 / pd + 10 * tol
            good = abs(math.log(pu / pd) - lo) < err + 1e-6
        elif pu == 0 and pd > 0:
            good = lo < -24
        elif pd == 0 and pu > 0:
            good = lo > 24
        if not good:
            raise Violation(
                '%s: entry %s moves up with probability %.6g and down with %.6g, '
                'log-ratio %s, exact conditional log-odds %.6g' % (
                    what, tuple(idx), pu, pd,
                    '%.6g' % math.log(pu / pd) if pu > 0 and pd > 0 else 'n/a', lo))
        g = ref.gibbs(lo, -1)
        return 'gibbs' if abs(pu - g) < 1e-6 + 1e-4 * g else 'other'

    def form(self, mi):
        """
        How updates of matrix mi use their draw: tried out with dispersions that
        say nothing (0, equal rates) and a prior of 2/3. (kernel, moves up on
        small draws, moves down on small draws), or None if it is another way.
        """
        if mi in self.forms:
            return self.forms[mi]
        lb, x = self.lb, self.mats[mi]
        prior = x.bernoulli_prior
        self.lb = [np.full(v.shape, .5) if isinstance(v, np.ndarray) else 0.0 for v in lb]
        x.bernoulli_prior = 2. / 3
        idx = (0,) * self.base[mi].ndim
        try:
            up = tuple(self.trial(mi, idx, -1, u) == 1 for u in (.1, .4, .6, .9))
            dn = tuple(self.trial(mi, idx, 1, u) == -1 for u in (.1, .4, .6, .9))
        finally:
            self.lb = lb
            x.bernoulli_prior = prior
        self.reset([])
        t, f = True, False
        half = {(t, t, f, f): True, (f, f, t, t): False}
        third = {(t, f, f, f): True, (f, f, f, t): False}
        more = {(t, t, t, f): True, (f, t, t, t): False}
        form = None
        if all(up) and dn in half:
            form = ('metropolised', half[dn], half[dn])
        elif up in more and dn in third:
            form = ('gibbs', more[up], third[dn])
        self.st.add('draws used: %s' % (form and '%s %d%d' % form))
        self.forms[mi] = form
        return form

    # ------------------------------------------------------------------
    def check_sweep(self, free, masks, u, logodds, what, kind='metropolised'):
        """
        One sweep with constant draws: some order of the matrices must exist
        such that every row is the result of updating its entries one after
        another, each exactly once, given the then-current other values.

        logodds(vals, mi, idx): exact log-odds with matrices' values vals
        """
        if not all(self.base[mi].size and self.form(mi) for mi in free):
            # draws are used in a way that is not understood
            self.st.add('sweeps_not_judged')
            return
        self.reset(free, masks)
        W = self.world(u)
        call(W, 'one sweep', self.m.infer, **ONESTEP)
        self.st.add('sweeps')
        self.st.add('composed_sweeps')
        after = [np.array(x.val) for x in self.mats]
        for j in range(len(self.mats)):
            if after[j].shape != self.base[j].shape:
                raise Violation('%s changed the shape of matrix %d' % (what, j))
            if j not in free and not same(after[j], self.base[j]):
                raise Violation('%s changed fixed matrix %d' % (what, j))
        W.log(*after)
        self.st.world(W)
        reasons = []
        for order in itertools.permutations(free):
            vals = [b.copy() for b in self.base]
            bad = None
            for mi in order:
                bad = self._matrix_ok(mi, vals, after[mi], masks.get(mi), u, logodds)
                if bad:
                    break
                vals[mi] = after[mi].copy()
            if not bad:
                return
            reasons.append('order %s: %s' % (order, bad))
        raise Violation('%s: no order of updates explains the result (%s)' % (
            what, '; '.join(reasons[:3])))

    def check_run(self, free, masks, op, logodds, what, kind='metropolised', tol=1e-9, extra=None):
        """
        A whole run (burn-in, sampling, dispersions re-estimated) in which every
        single update is judged: with a fresh draw that is the same for all
        entries, and given the values and dispersions as they are right then.

        extra: further matrices that may change, and functions to judge their
        updates (values before, values after, draw)
        """
        import random
        from .common import updates_seen
        if kind == 'other' or not updates_seen() or not all(self.base[mi].size and self.form(mi) for mi in free):
            self.st.add('runs_not_judged')
            return
        rnd = random.Random(op['seed'])
        extra = extra or {}
        self.reset(list(free) + list(extra), masks)
        for p in self.m.lbdas:
            p.fixed = bool(op.get('fix_lbda'))
        pos = {id(x): j for j, x in enumerate(self.mats)}
        keep_lb = self.lb
        W = World(seed=op['seed'], u=.5)
        prev = []

        def snap():
            return [np.array(x.val) for x in self.mats]

        def before(obj):
            W.u = rnd.random()
            prev[:] = snap()
            self.lb = [np.array(p.val, dtype=float) if np.ndim(p.val) else float(p.val)
                       for p in self.m.lbdas]

        def after(obj):
            mi = pos.get(id(obj))
            now = snap()
            for j in range(len(now)):
                if now[j].shape != prev[j].shape:
                    raise Violation('%s: shape of matrix %d changed' % (what, j))
                if j != mi and not same(now[j], prev[j]):
                    raise Violation('%s: the update of %s changed matrix %d' % (
                        what, 'a dispersion' if mi is None else 'matrix %d' % mi, j))
            if mi is None:
                self.st.add('dispersion_updates_in_runs')
            elif mi in free:
                bad = self._matrix_ok(mi, list(prev), now[mi], masks.get(mi), W.u, logodds, tol)
                if bad:
                    raise Violation('%s, dispersions %s: %s' % (
                        what, [np.round(v, 5).tolist() for v in self.lb], bad))
                self.st.add('updates_judged_in_runs')
            elif mi in extra and extra[mi] is not None:
                extra[mi](prev, now, W.u)
            W.log(*now)
        W.hooks_before.append(before)
        W.hooks_after.append(after)
        self.m.anneal = bool(op.get('anneal'))
        try:
            call(W, what, self.m.infer, no_samples=op['n'], burn_in_min=op['burn'], burn_in_max=op['burn'],
                 convergence_window=3)
        finally:
            self.m.anneal = False
            self.lb = keep_lb
        self.st.world(W)
        self.take_state()

    def _matrix_ok(self, mi, vals, new, mk, u, logodds, tol=0):
        shape = new.shape
        for n in range(shape[0]):
            row_idx = [(n,) + r for r in itertools.product(
                *[range(s) for s in shape[1:]])]
            free = [i for i in row_idx if mk is None or mk[i] != 1]
            for i in row_idx:
                if i not in free and new[i] != vals[mi][i]:
                    return 'fixed entry %s of matrix %d changed' % (i, mi)
            target = [int(new[i]) for i in row_idx]
            if len(free) > 5:        # independent entries (no child): any order
                perms = [free]
            else:
                perms = itertools.permutations(free)
            okay = near = False
            for p in perms:
                work = [v for v in vals]
                work[mi] = vals[mi].copy()
                for i in p:
                    z = int(work[mi][i])
                    lo = logodds(work, mi, i)
                    how, up, dn = self.form(mi)
                    a = ref.accept(lo, z) if how == 'metropolised' else ref.gibbs(lo, z)
                    small = dn if z == 1 else up
                    if tol:
                        near = near or abs(a - (u if small else 1 - u)) <= tol * max(a, u) and a < 1 - 1e-6
                    moves = u < a if small else u >= 1 - a
                    if how == 'metropolised' and abs(lo) < 1e-9:
                        moves = True
                    work[mi][i] = -z if moves else z
                if [int(work[mi][i]) for i in row_idx] == target:
                    okay = True
                    break
            if not okay and not near:
                return 'row %d of matrix %d became %s' % (n, mi, target)
        return None


def safe_u(rng, los):
    """a constant draw that is not close to any threshold is chosen by caller"""
    return rng
