#!/usr/bin/env python3
"""
mutate.py OUT [--files a.py,b.py] [--seed S] [--sample K] [--jobs J]

Small syntactic changes of /repo/lom, one at a time, each judged by all checks
with a reduced number of runs. Appends one JSON line per change to OUT: where,
what, and the first check that reports it (or "survived"). Lines no check ever
executes are reported once as "unreached" and not changed.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['machine.py', 'matrix_update_wrappers.py', 'lambda_update_wrappers.py', 'auxiliary_functions.py',
         'experiments.py', '_numba/lambda_updates_numba.py', '_numba/lom_outputs.py',
         '_numba/lom_outputs_fuzzy.py', '_numba/matrix_updates_numba.py', '_numba/max_machine_sampler.py',
         '_numba/posterior_score_fcts.py']
ORDER = {
    'machine.py': 'C07 C08 C12 C13 C05 C06 C09 C02',
    'matrix_update_wrappers.py': 'C02 C01 C20 C21 C12 C19 C03 C07',
    'lambda_update_wrappers.py': 'C04 C12',
    'auxiliary_functions.py': 'C13 C14 C17 C23 C24 C16 C01',
    'experiments.py': 'C16 C17 C18',
    '_numba/lambda_updates_numba.py': 'C04 C03',
    '_numba/lom_outputs.py': 'C13 C04',
    '_numba/lom_outputs_fuzzy.py': 'C13',
    '_numba/matrix_updates_numba.py': 'C01 C02 C20 C21 C19 C06',
    '_numba/max_machine_sampler.py': 'C03 C04',
    '_numba/posterior_score_fcts.py': 'C01 C02',
}
ALL = ['C%02d' % k for k in range(1, 25)]
SECONDS = 12


def env(repo):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG')}
    e.update(NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
             OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONPATH=V, PYTHONWARNINGS='ignore', LOM_REPO=repo)
    return e


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.Mult]}


def variants(node):
    """changed copies of an expression node"""
    out = []
    if isinstance(node, ast.Compare):
        for k, op in enumerate(node.ops):
            for o in CMP.get(type(op), []):
                c = copy.deepcopy(node)
                c.ops[k] = o()
                out.append(c)
    elif isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            c = copy.deepcopy(node)
            c.op = o()
            out.append(c)
    elif isinstance(node, ast.BoolOp):
        c = copy.deepcopy(node)
        c.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        out.append(c)
        for k in range(len(node.values)):
            c = copy.deepcopy(node)
            del c.values[k]
            out.append(c if len(c.values) > 1 else c.values[0])
    elif isinstance(node, ast.UnaryOp):
        if isinstance(node.op, (ast.USub, ast.Not)):
            out.append(copy.deepcopy(node.operand))
    elif isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            out.append(ast.Constant(not v))
        elif isinstance(v, int):
            out += [ast.Constant(v + 1), ast.Constant(v - 1)]
        elif isinstance(v, float):
            out += [ast.Constant(v * 2), ast.Constant(v + .25)]
    elif isinstance(node, ast.IfExp):
        c = copy.deepcopy(node)
        c.body, c.orelse = c.orelse, c.body
        out.append(c)
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Tuple):
        e = node.slice.elts
        if len(e) == 2 and all(isinstance(x, ast.Name) for x in e):
            c = copy.deepcopy(node)
            c.slice.elts.reverse()
            out.append(c)
    elif isinstance(node, ast.Call):
        if len(node.args) == 2 and not node.keywords:
            c = copy.deepcopy(node)
            c.args.reverse()
            out.append(c)
    elif isinstance(node, ast.ListComp):
        for k, g in enumerate(node.generators):
            if g.ifs:
                c = copy.deepcopy(node)
                c.generators[k].ifs = []
                out.append(c)
    return out


VM = '''_vmf = [0]


def _vm(v, k):
    import numpy
    if type(v) is int or isinstance(v, numpy.integer):
        if v == k:
            if not _vmf[0]:
                _vmf[0] = 1
                open(__file__ + '.fired', 'w').close()
            return v - 1
    elif (type(v) is float or isinstance(v, numpy.floating)) and k == 2 and v > 2:
        if not _vmf[0]:
            _vmf[0] = 1
            open(__file__ + '.fired', 'w').close()
        return v * 1.05
    return v
'''


def mutants(path, kind='syntax'):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            if getattr(n, f, None) is not None:
                skip |= {id(x) for x in ast.walk(getattr(n, f))}
        for d in getattr(n, 'decorator_list', []):
            skip |= {id(x) for x in ast.walk(d)}
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('print',):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}

    def put(n, text):
        a = offs[n.lineno - 1] + n.col_offset
        b = offs[n.end_lineno - 1] + n.end_col_offset
        return (raw[:a] + text.encode() + raw[b:]).decode(), raw[a:b].decode()

    out = []
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.expr):
            for v in variants(n):
                try:
                    t = '(%s)' % ast.unparse(v)
                    s, old = put(n, t)
                    ast.parse(s)
                except (SyntaxError, ValueError):
                    continue
                out.append((n.lineno, old, t, s))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            s, old = put(n, 'pass')
            out.append((n.lineno, old, 'pass', s))
        if isinstance(n, ast.Continue):
            for t in ('pass', 'break'):
                s, old = put(n, t)
                out.append((n.lineno, old, t, s))
        if isinstance(n, ast.Break):
            s, old = put(n, 'pass')
            out.append((n.lineno, old, 'pass', s))
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            c = copy.deepcopy(n)
            c.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(n.op)]()
            s, old = put(n, ast.unparse(c))
            out.append((n.lineno, old, ast.unparse(c), s))
        if isinstance(n, (ast.If, ast.While)):
            for t in ('not (%s)' % ast.unparse(n.test),):
                s, old = put(n.test, '(%s)' % t)
                out.append((n.lineno, old, t, s))
    if kind == 'value':
        out = []
        for n in ast.walk(tree):
            if id(n) in skip or not isinstance(n, (ast.Name, ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)):
                continue
            if not isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
                continue
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('range', 'prange', 'print', 'str', 'jit'):
                continue
            for k in (2, 3, 5):
                t = '_vm(%s, %d)' % (ast.unparse(n), k)
                s, old = put(n, t)
                try:
                    ast.parse(s)
                except SyntaxError:
                    continue
                out.append((n.lineno, old, t, VM + s if 'from __future__' not in s else s))
    seen = set()
    res = []
    for m in out:
        if m[3] not in seen and m[3] != src:
            seen.add(m[3])
            res.append(m)
    return res


COV = '''
import sys, os
if os.environ.get('LOM_COV'):
    def _cov():
        M = sys.monitoring
        fd = os.open(os.environ['LOM_COV'], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        root = os.environ['LOM_REPO'] + '/lom'
        def line(code, n):
            if code.co_filename.startswith(root):
                os.write(fd, ('%s:%d\\n' % (code.co_filename[len(root) + 1:], n)).encode())
            return M.DISABLE
        M.use_tool_id(5, 'lomcov')
        M.register_callback(5, M.events.LINE, line)
        M.set_events(5, M.events.LINE)
    _cov()
'''


def coverage(repo):
    d = tempfile.mkdtemp(prefix='lomcov')
    open(d + '/sitecustomize.py', 'w').write(COV)
    log = d + '/log'

    def one(pid):
        e = env(repo)
        e['PYTHONPATH'] = V + ':' + d
        e['LOM_COV'] = log
        subprocess.run([PY, '-B', '-m', 'sim.runner', 'worker', pid, '--seed', '3', '--tier', 'quick', '--part', '0',
                        '--of', '1', '--runs', '400', '--deadline', str(time.time() + 45)], cwd=V, env=e,
                       capture_output=True)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, ALL))
    cov = set(open(log).read().split())
    shutil.rmtree(d)
    return cov


def judge(repo, pid, seconds):
    p = subprocess.Popen(
        [PY, '-B', '-m', 'sim.runner', 'worker', pid, '--seed', '3', '--tier', 'quick', '--part', '0', '--of', '1',
         '--runs', '400', '--deadline', str(time.time() + seconds)], cwd=V, env=env(repo), stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        so, se = p.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'hang', ''
    for l in so.splitlines():
        if l.startswith('{'):
            d = json.loads(l)
            if d['t'] == 'viol':
                return 'viol', d['msg'][:200]
            if d['t'] == 'err':
                return 'err', d['msg'][-300:]
            return None, ''
    return 'died', se[-200:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--sample', type=int)
    ap.add_argument('--kind', default='syntax', choices=['syntax', 'value'],
                    help='value: an expression is off by one (or 5 %) for one value only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--seconds', type=float, default=SECONDS)
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    files = a.files.split(',') if a.files else FILES
    clean = tempfile.mkdtemp(prefix='lommut')
    shutil.copytree(a.repo + '/lom', clean + '/lom')
    covf = a.out + '.cov'
    if os.path.exists(covf):
        cov = set(open(covf).read().split())
    else:
        cov = coverage(clean)
        open(covf, 'w').write('\n'.join(sorted(cov)))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['old'], d['new']))
    todo = []
    for f in files:
        for line, old, new, src in mutants(clean + '/lom/' + f, a.kind):
            if '%s:%d' % (f, line) not in cov:
                continue
            if (f, line, old, new) not in done:
                todo.append((f, line, old, new, src))
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    print(len(todo), 'changes', flush=True)
    outf = open(a.out, 'a')

    def one(m):
        f, line, old, new, src = m
        d = tempfile.mkdtemp(prefix='lommut')
        try:
            shutil.copytree(clean + '/lom', d + '/lom')
            open(d + '/lom/' + f, 'w').write(src)
            first = ORDER[f].split()
            res = dict(file=f, line=line, old=old, new=new, by=None, how='survived', msg='')
            notes = []
            for pid in first + [p for p in ALL if p not in first]:
                how, msg = judge(d, pid, a.seconds)
                if how == 'viol':
                    res.update(by=pid, how=how, msg=msg)
                    break
                if how:
                    notes.append([pid, how, msg])
            res['notes'] = notes[:3]
            if a.kind == 'value' and res['how'] == 'survived' and not os.path.exists(d + '/lom/' + f + '.fired'):
                res['how'] = 'never fired'
            outf.write(json.dumps(res) + '\n')
            outf.flush()
        finally:
            shutil.rmtree(d)

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(clean)


if __name__ == '__main__':
    main()
