#!/usr/bin/env python3
"""
refactor.py OUT [--seed S] [--variants K] [--checks C01,..] [--seconds T] [--jobs J]

Rewrites all of lom at random without changing what it does (tests negated and
branches swapped, results put into temporaries, bodies moved into helpers,
comprehensions turned into loops, locals renamed, statements that do nothing)
and runs the checks, which have to stay quiet. One line per variant and check
that reports anything.
"""
import argparse
import ast
import json
import os
import random
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate  # noqa: E402


class Locals(ast.NodeVisitor):
    """names assigned in a function (not in nested ones), and all others used by nested scopes"""

    def __init__(self):
        self.store, self.nested, self.glob = set(), set(), set()
        self.depth = 0

    def visit_FunctionDef(self, n):
        if self.depth == 0:
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        else:
            self.nested |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {n.name}
            self.nested |= {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}

    def visit_Lambda(self, n):
        self.nested |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        self.nested |= {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}

    def visit_comp(self, n):
        self.nested |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.store.add(n.id)

    def visit_Global(self, n):
        self.glob |= set(n.names)

    visit_Nonlocal = visit_Global


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def simple(n):
    return isinstance(n, (ast.Name, ast.Constant)) or (
        isinstance(n, ast.BinOp) and simple(n.left) and simple(n.right)) or (
        isinstance(n, ast.Subscript) and simple(n.value) and (simple(n.slice) or isinstance(n.slice, ast.Tuple)))


class T(ast.NodeTransformer):
    def __init__(self, rng, p):
        self.rng, self.p, self.n = rng, p, 0
        self.infn = 0

    def yes(self, f=1.0):
        return self.rng.random() < self.p * f

    def tmp(self):
        self.n += 1
        return '_tmp%d' % self.n

    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        if self.infn == 0 and not isinstance(getattr(n, 'parent', None), ast.ClassDef):
            L = Locals()
            L.visit(n)
            args = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
            ok = sorted(L.store - L.nested - L.glob - args)
            m = {x: x + '_v' for x in ok if self.yes()}
            if m and not any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') in ('locals', 'eval', 'exec')
                             for x in ast.walk(n)):
                n.body = [Rename(m).visit(s) for s in n.body]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and simple(n.left) and simple(n.comparators[0]) and self.yes():
            return ast.copy_location(ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left]), n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.infn and self.yes():
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and self.yes():
            t = self.tmp()
            return [ast.Assign([ast.Name(t, ast.Store())], n.value, lineno=n.lineno), ast.Return(ast.Name(t, ast.Load()))]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.infn and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) and self.yes():
            t = self.tmp()
            return [ast.Assign([ast.Name(t, ast.Store())], n.value, lineno=n.lineno),
                    ast.Assign(n.targets, ast.Name(t, ast.Load()), lineno=n.lineno)]
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and n.target.id in ('score', 'counter', 'acc', 'num_active', 'x', 'score_temp') \
                and isinstance(n.op, (ast.Add, ast.Sub)) and self.yes():
            return ast.copy_location(ast.Assign([n.target], ast.BinOp(
                ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=n.lineno), n)
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        v = n.value
        if self.infn and isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and self.yes():
            g = v.generators[0]
            return ast.For(g.target, g.iter, [ast.Expr(v.elt)], [], lineno=n.lineno)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if self.infn and self.yes(.3):
            n.body = [ast.Expr(ast.Constant(None))] + n.body
        c = n.iter
        if isinstance(c, ast.Call) and getattr(c.func, 'id', '') == 'range' and len(c.args) == 1 and self.yes(.5):
            c.args = [ast.Constant(0)] + c.args
        return n


def helper(tree, rng, p):
    """moves bodies of plain top-level functions into helpers"""
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and rng.random() < p and not n.args.vararg and not n.args.kwarg and \
                not n.args.kwonlyargs and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            k = ast.FunctionDef('_' + n.name + '_body', ast.arguments([], [ast.arg(a.arg) for a in n.args.args], None, [], [],
                                                                     None, []), n.body, n.decorator_list, lineno=n.lineno)
            if sys.version_info >= (3, 12):
                k.type_params = []
            n.body = [ast.Return(ast.Call(ast.Name(k.name, ast.Load()), [ast.Name(a.arg, ast.Load())
                                                                      for a in n.args.args], []))]
            n.decorator_list = []
            out.append(k)
        out.append(n)
    tree.body = out


def rewrite(src, seed, p, hp):
    rng = random.Random(seed)
    t = ast.parse(src)
    for c in ast.walk(t):
        for k in ast.iter_child_nodes(c):
            k.parent = c
    t = T(rng, p).visit(t)
    helper(t, rng, hp)
    ast.fix_missing_locations(t)
    return ast.unparse(t) + '\n'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--variants', type=int, default=4)
    ap.add_argument('--checks')
    ap.add_argument('--seconds', type=float, default=40)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    checks = a.checks.split(',') if a.checks else mutate.ALL
    outf = open(a.out, 'a')
    for v in range(a.variants):
        seed = a.seed * 1000 + v
        d = tempfile.mkdtemp(prefix='lomref')
        shutil.copytree(a.repo + '/lom', d + '/lom', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(a.repo + '/tests', d + '/tests', ignore=shutil.ignore_patterns('__pycache__'))
        rng = random.Random(seed)
        p, hp = rng.choice([0, .3, .8, 1]), rng.choice([0, .2, .6])
        for f in mutate.FILES:
            q = d + '/lom/' + f
            s = open(q).read()
            open(q, 'w').write(rewrite(s, '%d%s' % (seed, f), p, hp))

        def one(c):
            return c, mutate.judge(d, c, a.seconds)
        with ThreadPoolExecutor(a.jobs) as ex:
            for c, (how, msg) in ex.map(one, checks):
                if how:
                    outf.write(json.dumps(dict(variant=seed, p=p, hp=hp, check=c, how=how, msg=msg)) + '\n')
                    outf.flush()
        outf.write(json.dumps(dict(variant=seed, p=p, hp=hp, done=len(checks))) + '\n')
        outf.flush()
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
