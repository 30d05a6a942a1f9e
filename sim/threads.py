"""
Simulated threads.

Baton      runs callables in real threads of which exactly one executes at any
           time; control may change hands before any executed byte-code (or
           source line) of lom, as decided by a seeded scheduler.
parallel   re-creation of numba's parallel loops: the outermost prange loops of
           functions compiled with parallel=True become chunk functions which
           simulated workers execute. Scalars assigned in the loop are private
           to a worker (initialised with their value before the loop),
           reductions start from the neutral element and are combined at the
           end, arrays are shared - the semantics of numba.prange.
"""
import ast
import inspect
import random
import sys
import textwrap
import threading
from . import seams

CTX = None            # active Parallel context
_tls = threading.local()


class Baton:
    """
    mode      random: geometric time slices, lockstep: one event each in turn,
              stall: one thread stands still until all others have finished,
              pct: strict priorities that drop at a few random points
    gran      opcode or line
    limit     number of preemptions after which threads run to completion
    """

    def __init__(self, seed, mode='random', quantum=7, gran='opcode', limit=10 ** 9,
                 only=None, faults=None):
        self.rng = random.Random(seed)
        self.mode, self.quantum, self.gran = mode, quantum, gran
        self.limit = limit
        self.only = tuple(only) if only else None
        self.faults = dict(faults or {})      # thread -> event at which it is interrupted
        self.fired = []
        self.preemptions = 0
        self.events = 0
        self.trail = []

    def slice(self):
        if self.mode == 'lockstep':
            return 1
        if self.mode == 'stall':
            return 1 + int(self.rng.expovariate(1.0 / (3 * self.quantum)))
        return 1 + int(self.rng.expovariate(1.0 / self.quantum))

    def pick(self, alive, last):
        if len(alive) == 1:
            return alive[0]
        if self.mode == 'lockstep':
            later = [k for k in alive if k > last]
            return later[0] if later else alive[0]
        if self.mode == 'stall':
            rest = [k for k in alive if k != self.stalled]
            return self.rng.choice(rest)
        if self.mode == 'pct':
            if last in alive and self.prio:
                self.prio[last] = min(self.prio.values()) - 1
            return max(alive, key=lambda k: self.prio[k])
        return self.rng.choice(alive)

    def run(self, fns):
        n = len(fns)
        self.stalled = self.rng.randrange(n)
        self.prio = {k: self.rng.random() for k in range(n)}
        self.main = threading.Semaphore(0)
        sems = [threading.Semaphore(0) for _ in range(n)]
        state = [None] * n            # None, ('ok', value), ('exc', exception)
        left = [0] * n
        count = [0] * n
        where = [None] * n
        baton = self

        def body(k):
            def point(code, pos):
                if baton.only is not None and not any(
                        o in code.co_filename for o in baton.only):
                    return
                baton.events += 1
                count[k] += 1
                if baton.faults.get(k) == count[k]:
                    baton.fired.append(k)
                    raise seams.SimInterrupt('injected interrupt of thread %d' % k)
                left[k] -= 1
                if left[k] <= 0:
                    where[k] = (code, pos)
                    baton.main.release()
                    sems[k].acquire()

            sems[k].acquire()
            _tls.point = point
            try:
                state[k] = ('ok', fns[k]())
            except BaseException as e:
                state[k] = ('exc', e)
            finally:
                _tls.point = None
                baton.main.release()

        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        last = -1
        while True:
            alive = [k for k in range(n) if state[k] is None]
            if not alive:
                break
            k = self.pick(alive, last)
            if self.preemptions >= self.limit:
                k = last if last in alive else alive[0]
                left[k] = 10 ** 12
            else:
                left[k] = self.slice()
            if k != last and last in alive:
                self.preemptions += 1
                f = where[last]
                if f is not None and len(self.trail) < 400:
                    self.trail.append((last, k, f[0].co_filename[len(seams.LOMDIR):],
                                       line_of(f, self.gran)))
            last = k
            sems[k].release()
            self.main.acquire()
        for t in threads:
            t.join()
        return state

    def describe(self):
        t = self.trail[-6:]
        return '%d preemptions, last: %s' % (self.preemptions, '; '.join(
            'thread %d -> %d at %s:%d' % x for x in t))


def in_worker():
    return getattr(_tls, 'point', None) is not None


# --------------------------------------------------------------------------
# events: sys.monitoring on the code of lom only
# --------------------------------------------------------------------------
TOOL = 4
CODES = []
_seen = set()


def register(code):
    # equal code objects are distinct to sys.monitoring (CODES keeps them alive)
    if id(code) in _seen or not code.co_filename.startswith(seams.LOMDIR):
        return
    _seen.add(id(code))
    CODES.append(code)
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            register(c)


def _collect():
    import gc
    import importlib
    import os
    for d in ('', '_numba'):
        for f in sorted(os.listdir(os.path.join(seams.LOMDIR, d))):
            if f.endswith('.py') and f != '__init__.py':
                try:
                    importlib.import_module('.'.join(['lom'] + ([d] if d else []) + [f[:-3]]))
                except ImportError:
                    pass
    for o in gc.get_objects():
        if type(o).__name__ == 'function' and hasattr(o, '__code__'):
            register(o.__code__)


def line_of(f, gran):
    code, pos = f
    if gran == 'line':
        return pos
    for a, b, line in code.co_lines():
        if a <= pos < b:
            return line or 0
    return 0


def _event(code, pos):
    p = getattr(_tls, 'point', None)
    if p is not None:
        p(code, pos)


class Events:
    """byte-code or line events of lom code are delivered while active"""

    def __init__(self, gran):
        self.gran = gran

    def __enter__(self):
        M = sys.monitoring
        if not CODES:
            _collect()
        if M.get_tool(TOOL) is None:
            M.use_tool_id(TOOL, 'lomsim')
        self.ev = M.events.INSTRUCTION if self.gran == 'opcode' else M.events.LINE
        M.register_callback(TOOL, self.ev, _event)
        for c in CODES:
            M.set_local_events(TOOL, c, self.ev)
        return self

    def refresh(self):
        for c in CODES:
            sys.monitoring.set_local_events(TOOL, c, self.ev)

    def __exit__(self, *a):
        M = sys.monitoring
        for c in CODES:
            M.set_local_events(TOOL, c, 0)
        M.register_callback(TOOL, self.ev, None)
        return False


# --------------------------------------------------------------------------
# parallel loops
# --------------------------------------------------------------------------
class Parallel:
    """how parallel loops are executed; kind in seq, perm, workers"""

    def __init__(self, kind='seq', seed=0, workers=3, division='random', **baton):
        self.kind, self.workers, self.division = kind, workers, division
        self.rng = random.Random(seed)
        self.baton = baton
        self.calls = 0
        self.loops = 0
        self.preemptions = 0
        self.trail = ''
        self.names = set()
        self.last = None

    def __enter__(self):
        global CTX
        CTX = self
        self.ev = None
        if self.kind == 'workers':
            self.ev = Events(self.baton.get('gran', 'opcode'))
            self.ev.__enter__()
        return self

    def __exit__(self, *a):
        global CTX
        CTX = None
        if self.ev is not None:
            self.ev.__exit__()
        return False

    def divide(self, rows):
        rows = list(rows)
        w = max(1, min(self.workers, len(rows)))
        if self.division == 'random':
            parts = [[] for _ in range(w)]
            for k, r in enumerate(rows):
                parts[k if k < 2 else self.rng.randrange(w)].append(r)
            self.rng.shuffle(parts)
        elif self.division == 'cyclic':
            parts = [rows[k::w] for k in range(w)]
        else:
            cuts = sorted(self.rng.randint(min(1, len(rows) - 1), max(0, len(rows) - 1)) for _ in range(w - 1))
            cuts = [0] + cuts + [len(rows)]
            parts = [rows[a:b] for a, b in zip(cuts, cuts[1:])]
        return [p for p in parts if p]


def keyed_rows(rows, call):
    """iterate rows; draws are a function of the row only"""
    W = seams.CUR
    tid = threading.get_ident()
    old = W.key_stack.get(tid, ()) if W is not None else None
    try:
        for r in rows:
            if W is not None:
                W.key_stack[tid] = ('row', call, int(r))
            yield r
    finally:
        if W is not None:
            W.key_stack[tid] = old


def run_loop(chunk, rows, init, reductions, names, label):
    """called by transformed code in place of a parallel loop"""
    P = CTX
    P.calls += 1
    call = P.calls
    P.names.add(label)
    if P.kind == 'workers' and len(rows) > 0:
        parts = P.divide(rows)
    else:
        parts = [list(rows)]
        if P.kind == 'perm':
            P.rng.shuffle(parts[0])
    real = seams._real
    inits = []
    for _ in parts:
        d = {}
        for v in names:
            if v not in init:
                continue
            if v in reductions and reductions[v] in ('+', '*'):
                x = init[v]
                if isinstance(x, seams.np.ndarray) and x.ndim:
                    d[v] = (real['zeros_like'] if reductions[v] == '+' else
                            real['ones_like'])(x)
                else:
                    d[v] = type(x)(0 if reductions[v] == '+' else 1)
            else:
                d[v] = init[v]
        inits.append(d)
    fns = [(lambda p=p, d=d: chunk(keyed_rows(p, call), d)) for p, d in zip(parts, inits)]
    if len(fns) == 1:
        outs = [fns[0]()]
    else:
        b = Baton(P.rng.randrange(10 ** 9), **dict(
            P.baton, limit=max(0, P.baton.get('limit', 10 ** 9) - P.preemptions)))
        state = b.run(fns)
        P.loops += 1
        P.preemptions += b.preemptions
        if b.preemptions:
            P.last = (label, b.describe())
        for s in state:
            if s[0] == 'exc':
                raise s[1]
        outs = [s[1] for s in state]
    res = {}
    for v in names:
        got = [o[v] for o in outs if v in o]
        if not got:
            continue
        if v in reductions and v in init:
            op = reductions[v]
            x = init[v]
            for g in got:
                if op == '+':
                    x = x + g
                elif op == '*':
                    x = x * g
                elif op == 'max':
                    x = max(x, g)
                else:
                    x = min(x, g)
            res[v] = x
        else:
            res[v] = got[-1]
    return res


def _targets(node):
    """names assigned somewhere below node (not entering nested functions)"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    for n in (node if isinstance(node, list) else [node]):
        V().visit(n)
    return out


def _reductions(body, before):
    ops = {}

    class V(ast.NodeVisitor):
        def note(self, name, op):
            ops.setdefault(name, set()).add(op)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                op = {ast.Add: '+', ast.Sub: '+', ast.Mult: '*'}.get(type(n.op), '?')
                self.note(n.target.id, op)

        def visit_Assign(self, n):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    op = '?'
                    v = n.value
                    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult)):
                        for s in (v.left, v.right):
                            if isinstance(s, ast.Name) and s.id == t.id:
                                op = '+' if isinstance(v.op, ast.Add) else '*'
                    elif isinstance(v, ast.BinOp) and isinstance(v.op, ast.Sub) and \
                            isinstance(v.left, ast.Name) and v.left.id == t.id:
                        op = '+'
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                            v.func.id in ('max', 'min') and \
                            any(isinstance(a, ast.Name) and a.id == t.id for a in v.args):
                        op = v.func.id
                    self.note(t.id, op)
                else:
                    for x in _targets(t):
                        self.note(x, '?')

        def visit_For(self, n):
            for x in _targets(n.target):
                self.note(x, '?')
            for s in n.body + n.orelse:
                self.visit(s)
    for s in body:
        V().visit(s)
    return {k: next(iter(v)) for k, v in ops.items()
            if k in before and len(v) == 1 and '?' not in v}


def _leaves(body):
    """a return, or a break that leaves the parallel loop"""
    def walk(stmts, inloop):
        for s in stmts:
            if isinstance(s, ast.Return):
                return True
            if isinstance(s, ast.Break) and not inloop:
                return True
            for f in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, f, None)
                if isinstance(sub, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    if walk(sub, inloop or (isinstance(s, (ast.For, ast.While)) and f == 'body')):
                        return True
        return False
    return walk(body, False)


def _is_prange(node, fn):
    if not isinstance(node, ast.Call):
        return False
    f = node.func
    name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
    if name == 'prange':
        return True
    if isinstance(f, ast.Name):
        return fn.__globals__.get(name) is seams.numba_prange()
    return False


class _Rewrite(ast.NodeTransformer):
    def __init__(self, fn, root):
        self.fn = fn
        self.n = 0
        self.root = root
        args = root.args
        self.params = {a.arg for a in args.args + args.kwonlyargs + args.posonlyargs}

    def visit_FunctionDef(self, node):
        if node is self.root:
            self.generic_visit(node)
        return node

    def visit_For(self, node):
        if not _is_prange(node.iter, self.fn) or node.orelse or _leaves(node.body):
            self.generic_visit(node)
            return node
        before = set(self.params)
        for s in ast.walk(self.root):
            if isinstance(s, ast.stmt) and s.lineno < node.lineno and \
                    not isinstance(s, ast.FunctionDef):
                before |= _targets(s) if not hasattr(s, 'body') else set()
                if isinstance(s, ast.For):
                    before |= _targets(s.target)
        names = sorted(_targets(node.body))
        red = _reductions(node.body, before)
        self.n += 1
        c = '__sim_chunk_%d' % self.n
        label = '%s:%s' % (self.fn.__code__.co_filename[len(seams.LOMDIR):], self.fn.__qualname__)
        src = ['def %s(__sim_rows, __sim_init):' % c]
        for v in names:
            if v in before:
                src.append("    if '%s' in __sim_init: %s = __sim_init['%s']" % (v, v, v))
        src.append('    for __sim_x in __sim_rows: pass')
        src.append('    return locals()')
        src.append('__sim_res = __sim_loop(%s, range(0), locals(), %r, %r, %r)' % (
            c, red, names, label))
        for v in names:
            src.append("if '%s' in __sim_res: %s = __sim_res['%s']" % (v, v, v))
        new = ast.parse('\n'.join(src)).body
        for s in new:
            for x in ast.walk(s):
                if hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = node.lineno
                    x.col_offset = x.end_col_offset = 0
        loop = [s for s in new[0].body if isinstance(s, ast.For)][0]
        loop.target = node.target
        loop.body = node.body
        call = new[1].value
        call.args[1].args = node.iter.args
        return new


def rewrite(fn):
    """
    function with its outermost parallel loops replaced, or None. The returned
    value makes it from a function with that code, with the current contents of its closure.
    """
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    root = tree.body[0]
    if not isinstance(root, ast.FunctionDef):
        return None
    root.decorator_list = []
    ast.increment_lineno(tree, fn.__code__.co_firstlineno - 1)
    rw = _Rewrite(fn, root)
    rw.visit(root)
    if not rw.n:
        return None
    free = fn.__code__.co_freevars
    outer = ast.parse('def __sim_factory(%s):\n    return None' % ', '.join(
        list(free) + ['__sim_loop']))
    f = outer.body[0]
    f.body = [root, ast.parse('return %s' % root.name).body[0]]
    ast.fix_missing_locations(outer)
    code = compile(outer, fn.__code__.co_filename, 'exec')
    ns = {}
    exec(code, fn.__globals__, ns)
    register(code)
    if CTX is not None and CTX.ev is not None:
        CTX.ev.refresh()

    def instance(fn):
        cells = [c.cell_contents for c in (fn.__closure__ or ())]
        new = ns['__sim_factory'](*(cells + [run_loop]))
        new.__defaults__ = fn.__defaults__
        new.__kwdefaults__ = fn.__kwdefaults__
        return new
    return instance


REWRITTEN = {}        # id of code -> (code, maker of the rewritten function or None)


def parallel_function(fn):
    """decorator applied to functions compiled with parallel=True"""
    def entry(*a, **k):
        if CTX is None or in_worker() or seams.CUR is None:
            return fn(*a, **k)
        key = id(fn.__code__)
        if key not in REWRITTEN:
            try:
                REWRITTEN[key] = (fn.__code__, rewrite(fn))
            except (OSError, SyntaxError, TypeError, ValueError):
                REWRITTEN[key] = (fn.__code__, None)
        make = REWRITTEN[key][1]
        if make is None:
            return fn(*a, **k)
        return make(fn)(*a, **k)
    entry.__name__ = fn.__name__
    entry.__qualname__ = fn.__qualname__
    entry.__doc__ = fn.__doc__
    entry.py_func = fn
    entry.__wrapped__ = fn
    return entry
