#!/usr/bin/env python3
"""Mutation campaign on scratch copies: which small changes pass the tests and are missed by every check?

    python3 tools/mutate.py OUT.jsonl [--n 400] [--seed 1] [--files geom,model]
Each line of OUT: mutant, whether the tests notice it, and which check (first one) reports it.
"""
import argparse
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('MUT_ROOT', '/tmp/mut')
FILES = ['geom', 'transform', 'model', 'bezier', 'colors', 'drawing', 'utils', 'vec_field', 'anim', 'anim_simple']
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
           OPENBLAS_CORETYPE='Prescott', OPENBLAS_NUM_THREADS='1')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*'}
SWAP = {'x': 'y', 'y': 'x', 'xl': 'xh', 'xh': 'xl', 'yl': 'yh', 'yh': 'yl', '_x': '_y', '_y': '_x', 'dl': 'dr', 'dr': 'dl', 'l': 'r', 'r': 'l',
        'p1': 'p2', 'p2': 'p1', 'start': 'end', 'end': 'start', 'stroke': 'fill', 'fill': 'stroke', 'pen': 'brush', 'brush': 'pen',
        'append': 'extend', 'min': 'max', 'max': 'min', 'sin': 'cos', 'cos': 'sin', 'rotate': 'rotate_ccw', 'rotate_ccw': 'rotate'}
SKIP = ('test_', 'arc_animate', 'arc_test', 'main', 'gen_test_model', 'plot', '__str__', 'display',
        'Builder.show', 'demo')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.stack = src, [], []
        lines = src.split('\n')
        self.off = [0]
        for l in lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, a, b, new, kind, line):
        self.out.append((a, b, new, kind, line, '.'.join(self.stack)))

    def rep(self, n, new, kind):
        a, b = self.pos(n)
        self.add(a, b, new, kind, n.lineno)

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        if not any(s in '.'.join(self.stack) for s in SKIP) and not any('overload' in ast.unparse(d) or 'abstract' in ast.unparse(d) for d in n.decorator_list):
            for x in n.body:
                self.visit(x)
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                self.visit(d)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for x in n.body:
            self.visit(x)
        self.stack.pop()

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and '__name__' in ast.unparse(n.test):
            return
        self.rep(n.test, 'True', 'cond')
        self.rep(n.test, 'False', 'cond')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.rep(n, '(%s %s %s)' % (l, CMP[type(n.ops[0])], r), 'cmp')
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.rep(n, '(%s %s %s)' % (r, {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(n.ops[0])], l), 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.rep(n, '(' + op.join('(%s)' % self.text(v) for v in n.values) + ')', 'bool')
        for i in range(len(n.values)):
            rest = n.values[:i] + n.values[i + 1:]
            self.rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % self.text(v) for v in rest) + ')', 'bool-drop')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.rep(n, '(%s)' % self.text(n.operand), 'unary')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            self.rep(n, '(%s %s %s)' % (self.text(n.left), BIN[type(n.op)], self.text(n.right)), 'bin')
            self.rep(n, '(%s)' % self.text(n.left), 'bin-drop')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.rep(n, str(not n.value), 'const')
        elif isinstance(n.value, (int, float)):
            self.rep(n, '(%r)' % (n.value + 1), 'const')
            if n.value:
                self.rep(n, '0', 'const')
        elif n.value is None:
            pass

    def visit_Attribute(self, n):
        if n.attr in SWAP and isinstance(n.ctx, ast.Load):
            self.rep(n, self.text(n.value) + '.' + SWAP[n.attr], 'attr')
        self.generic_visit(n)

    def visit_Name(self, n):
        if n.id in ('min', 'max', 'sin', 'cos'):
            self.rep(n, SWAP[n.id], 'name')

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'fixed', 'set', 'abs') and not n.args:
            self.rep(n, self.text(n.func.value), 'nocopy')
        if isinstance(n.func, ast.Name) and n.func.id in ('abs', 'list', 'sorted', 'tuple', 'bool', 'reversed', 'float', 'int') and len(n.args) == 1 and not n.keywords:
            self.rep(n, '(%s)' % self.text(n.args[0]), 'nocall')
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                a, _ = self.pos(n.args[i])
                _, b = self.pos(n.args[i + 1])
                self.add(a, b, '%s, %s' % (self.text(n.args[i + 1]), self.text(n.args[i])), 'argswap', n.lineno)
        if n.keywords:
            k = n.keywords[-1]
            prev = ([self.pos(a)[1] for a in n.args] + [self.pos(q)[1] for q in n.keywords[:-1]])
            if prev:
                self.add(max(prev), self.pos(k)[1], '', 'kwdrop', n.lineno)
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.rep(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.rep(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_AugAssign(self, n):
        self.rep(n, 'pass', 'drop')
        op = BIN.get(type(n.op))
        if op:
            self.rep(n, '%s %s= %s' % (self.text(n.target), op, self.text(n.value)), 'aug')
        self.generic_visit(n)

    def visit_Assert(self, n):
        return

    def visit_Raise(self, n):
        self.rep(n, 'pass', 'drop')

    def visit_IfExp(self, n):
        self.rep(n, '(%s)' % self.text(n.body), 'ifexp')
        self.rep(n, '(%s)' % self.text(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.generic_visit(n)

    def visit_For(self, n):
        self.rep(n.iter, '(list(%s)[:-1])' % self.text(n.iter), 'iter')
        self.rep(n.iter, '(list(%s)[1:])' % self.text(n.iter), 'iter')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.rep(n, self.text(n.value), 'noslice')
        self.generic_visit(n)

    def visit_Try(self, n):
        self.generic_visit(n)


def mutants(name):
    src = open('/repo/x7/geom/%s.py' % name).read()
    f = Finder(src)
    f.visit(ast.parse(src))
    out = []
    for a, b, new, kind, line, fn in f.out:
        if not fn:
            continue
        text = (f.b[:a] + new.encode() + f.b[b:]).decode()
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        out.append(dict(file=name, line=line, fn=fn, kind=kind, old=f.b[a:b].decode(), new=new, span=(a, b)))
    return out


def covering():
    cov = {}
    for e in os.listdir(HERE + '/evidence'):
        if e.endswith('.json') and len(e) == 8:
            j = json.load(open(HERE + '/evidence/' + e))
            cov[e[:3]] = (j['wall_s'], {f.split('/')[-1].split('.py')[0] + ' ' + f.split(' ', 1)[1] for f in j['coverage']['functions']})
    return cov


def slot():
    return '%s/%d' % (ROOT, mp.current_process()._identity[0] % 64)


def run(m):
    wt = slot()
    if not os.path.isdir(wt):
        shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    path = '%s/x7/geom/%s.py' % (wt, m['file'])
    src = open('/repo/x7/geom/%s.py' % m['file']).read().encode()
    a, b = m['span']
    with open(path, 'wb') as f:
        f.write(src[:a] + m['new'].encode() + src[b:])
    m = dict(m)
    try:
        try:
            subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--continue-on-collection-errors',
                            '-o', 'python_functions=NONE_', '-o', 'junit_family=xunit2', '--junitxml=%s/junit.xml' % wt, 'tests'],
                           cwd=wt, env=dict(ENV, PYTHONPATH=wt, DISPLAY=':77'), capture_output=True, text=True, timeout=120)
            subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', wt + '/out.json', 'junit:%s/junit.xml' % wt], capture_output=True)
            m['tests'] = len(STABLE - set(json.load(open(wt + '/out.json')).get('passed', [])))
        except subprocess.TimeoutExpired:
            m['tests'] = 'timeout'
        if m['tests'] != 0:
            return m
        key = m['file'] + ' ' + m['fn']
        m['checks'] = {}
        m['caught'] = None
        todo = sorted((w, c) for c, (w, fns) in COV.items() if key in fns or not any(key in g for _, g in COV.values()))
        m['covered'] = len([1 for _, g in COV.values() if key in g])
        for w, c in todo:
            try:
                q = subprocess.run(['python3', HERE + '/check.py', c, '--jobs', '2'], env=dict(os.environ, SVA_REPO=wt, VERIF_TIER='quick'),
                                   capture_output=True, text=True, timeout=600, cwd=HERE)
                m['checks'][c] = q.returncode
                if q.returncode == 1:
                    m['caught'] = c
                    m['why'] = q.stdout[:400]
                    break
            except subprocess.TimeoutExpired:
                m['checks'][c] = 'timeout'
        return m
    finally:
        with open(path, 'wb') as f:
            f.write(src)


def main():
    global COV
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=400)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files', default=','.join(FILES))
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    COV = covering()
    ms = [m for f in a.files.split(',') for m in mutants(f)]
    print(len(ms), 'mutants')
    if a.count:
        return
    random.Random(a.seed).shuffle(ms)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            j = json.loads(l)
            done.add((j['file'], tuple(j['span']), j['new']))
    ms = [m for m in ms[:a.n] if (m['file'], tuple(m['span']), m['new']) not in done]
    os.makedirs(ROOT, exist_ok=True)
    x = subprocess.Popen('exec Xvfb :77 -screen 0 1280x1024x24 -nolisten tcp >/dev/null 2>&1', shell=True)
    time.sleep(2)
    try:
        with mp.Pool(a.jobs) as pool, open(a.out, 'a') as out:
            for i, m in enumerate(pool.imap_unordered(run, ms)):
                out.write(json.dumps(m) + '\n')
                out.flush()
    finally:
        x.kill()
        shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
