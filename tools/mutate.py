#!/usr/bin/env python3
"""Mutation campaign against the checks (development tool; no check uses it).

  mutate.py gen OUT.jsonl           syntactic mutants of /repo/properties
  mutate.py cover COV.pkl           statements covered by each scenario on the current tree
  mutate.py tests OUT.jsonl ALIVE.jsonl        the stable tests
MC_BASE: the tree the mutants were generated from (default /repo).
  mutate.py run ALIVE.jsonl COV.pkl RES.jsonl [SECONDS]   the scenarios that cover the line, of the surviving ones
"""
import ast
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import multiprocessing
import warnings
warnings.simplefilter('ignore')
BASE = os.environ.get('MC_BASE', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PY = '/opt/venv/bin/python'
SKIPFN = {'info', 'sphinx', 'sphinx_class', 'sphinx_prop', '__repr__', 'doc'}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def seg(src, n):
    return ast.get_source_segment(src, n)


class Gen(ast.NodeVisitor):
    def __init__(self, rel, src):
        self.rel, self.src = rel, src
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l) + 1)
        self.out = []
        self.fn = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def put(self, n, new, op):
        a, b = self.pos(n)
        self.rep(a, b, new, op, n.lineno)

    def rep(self, a, b, new, op, line):
        if self.src[a:b] == new or not self.fn or any(f in SKIPFN for f in self.fn):
            return
        m = self.src[:a] + new + self.src[b:]
        try:
            compile(m, self.rel, 'exec')
        except (SyntaxError, ValueError):
            return
        self.out.append({'file': self.rel, 'a': a, 'b': b, 'new': new, 'op': op, 'line': line,
                         'fn': '.'.join(self.fn), 'old': self.src[a:b]})

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d, a in zip(n.args.defaults, n.args.args[-len(n.args.defaults):] if n.args.defaults else []):
            if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                self.put(d, str(not d.value), 'default')
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit(self, n):
        if isinstance(n, ast.stmt):
            self.stmt(n)
        if isinstance(n, ast.expr):
            self.expr(n)
        m = getattr(self, 'visit_' + type(n).__name__, None)
        (m or self.generic_visit)(n)

    def stmt(self, n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.AugAssign)):
            self.put(n, 'pass', 'drop')
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            self.put(n, 'pass', 'drop')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and len(self.fn) > 1:
            self.put(n, 'pass', 'drop')
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and
                                                                     n.value.value is None):
            self.put(n.value, 'None', 'return')
        if isinstance(n, (ast.If, ast.While)):
            self.put(n.test, 'True', 'cond')
            self.put(n.test, 'False', 'cond')
            if isinstance(n, ast.If) and n.orelse and not isinstance(n.orelse[0], ast.If):
                a = self.pos(n.orelse[0])[0]
                b = self.pos(n.orelse[-1])[1]
                self.rep(a, b, 'pass', 'noelse', n.orelse[0].lineno)
        if isinstance(n, ast.For):
            t = seg(self.src, n.iter)
            self.put(n.iter, 'list(%s)[:1]' % t, 'loop')
            self.put(n.iter, 'list(%s)[1:]' % t, 'loop')
            self.put(n.iter, 'list(%s)[::-1]' % t, 'loop')
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if isinstance(h.type, ast.Tuple):
                    for i in range(len(h.type.elts)):
                        rest = [seg(self.src, e) for j, e in enumerate(h.type.elts) if j != i]
                        self.put(h.type, '(%s,)' % ', '.join(rest), 'except')
                elif h.type is not None:
                    self.put(h.type, '()', 'except')
                    t = seg(self.src, h.type)
                    if t == 'GENERIC_ERRORS':
                        for k in ('ValueError', 'KeyError', 'TypeError', 'AttributeError'):
                            self.put(h.type, 'tuple(e for e in GENERIC_ERRORS if e is not %s)' % k, 'except')
            if n.finalbody:
                # leave the finally block only on the normal path
                a = self.pos(n)[0]
                ind = ' ' * n.col_offset
                body = self.src[self.pos(n.body[0])[0]:self.pos(n.body[-1])[1]]
                fin = self.src[self.pos(n.finalbody[0])[0]:self.pos(n.finalbody[-1])[1]]
                if not n.handlers:
                    new = 'if True:\n%s    %s\n%s    %s' % (ind, body, ind, fin)
                    self.rep(a, self.pos(n)[1], new, 'finally', n.lineno)
        # swap with the next simple statement
    def swap(self, body):
        for x, y in zip(body, body[1:]):
            if isinstance(x, (ast.Expr, ast.Assign)) and isinstance(y, (ast.Expr, ast.Assign, ast.Return)) and \
                    not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                if isinstance(y, ast.Return):
                    continue
                a, b = self.pos(x)[0], self.pos(y)[1]
                new = self.src[self.pos(y)[0]:b] + self.src[self.pos(x)[1]:self.pos(y)[0]] + self.src[a:self.pos(x)[1]]
                self.rep(a, b, new, 'swap', x.lineno)

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.ClassDef, ast.Module)):
                self.swap(b)
        super().generic_visit(n)

    def expr(self, n):
        src = self.src
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(src, n.left), seg(src, n.comparators[0])
            self.put(n, '%s %s %s' % (l, CMP[type(n.ops[0])], r), 'cmp')
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.put(n, '%s %s %s' % (l, {'Lt': '>', 'LtE': '>=', 'Gt': '<', 'GtE': '<='}[type(n.ops[0]).__name__], r), 'cmp')
            if isinstance(n.ops[0], ast.Is):
                self.put(n, '%s == %s' % (l, r), 'is-eq')
            if isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List)):
                for i, e in enumerate(n.comparators[0].elts):
                    rest = [seg(src, x) for j, x in enumerate(n.comparators[0].elts) if j != i]
                    self.put(n.comparators[0], '(%s,)' % ', '.join(rest), 'in')
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [seg(src, v) for j, v in enumerate(n.values) if j != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                self.put(n, '(' + op.join(rest) + ')', 'boolop')
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.put(n, '(' + op.join('(' + seg(src, v) + ')' for v in n.values) + ')', 'boolop')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.put(n, seg(src, n.operand), 'not')
        if isinstance(n, ast.IfExp):
            self.put(n, '(%s)' % seg(src, n.body), 'ifexp')
            self.put(n, '(%s)' % seg(src, n.orelse), 'ifexp')
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                self.put(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                self.put(n, str(n.value + 1), 'const')
                if n.value > 0:
                    self.put(n, str(n.value - 1), 'const')
        if isinstance(n, ast.BinOp):
            self.put(n, seg(src, n.left), 'binop')
            self.put(n, seg(src, n.right), 'binop')
        if isinstance(n, ast.Call):
            f = seg(src, n.func)
            args = [seg(src, x) for x in n.args]
            kws = [('**' if k.arg is None else k.arg + '=') + seg(src, k.value) for k in n.keywords]
            for i in range(len(kws)):
                self.put(n, '%s(%s)' % (f, ', '.join(args + kws[:i] + kws[i + 1:])), 'dropkw')
            if len(args) > 1:
                self.put(n, '%s(%s)' % (f, ', '.join(args[:-1] + kws)), 'droparg')
            if len(args) == 2 and f not in ('isinstance', 'super', 'hasattr', 'getattr', 'issubclass'):
                self.put(n, '%s(%s)' % (f, ', '.join(args[::-1] + kws)), 'swaparg')
            if len(args) == 1 and not kws and f not in ('len', 'super', 'type', 'callable', 'id', 'iter', 'next'):
                self.put(n, args[0], 'unwrap')
            if f == 'isinstance' and isinstance(n.args[1], ast.Tuple):
                for i, e in enumerate(n.args[1].elts):
                    rest = [seg(src, x) for j, x in enumerate(n.args[1].elts) if j != i]
                    self.put(n.args[1], '(%s,)' % ', '.join(rest), 'isinst')
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    self.put(c, 'True', 'compif')


def gen(out):
    ms = []
    for dp, dn, fs in os.walk('/repo/properties'):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                src = open(p).read()
                g = Gen(os.path.relpath(p, '/repo'), src)
                for s in ast.parse(src).body:
                    g.visit(s)
                ms += g.out
    seen, res = set(), []
    for m in ms:
        k = (m['file'], m['a'], m['b'], m['new'])
        if k not in seen:
            seen.add(k)
            res.append(m)
    with open(out, 'w') as f:
        for i, m in enumerate(res):
            m['id'] = i
            f.write(json.dumps(m) + '\n')
    print(len(res))


def all_scenarios():
    import importlib
    import glob
    out = []
    for p in sorted(glob.glob(HERE + '/checks/c[0-9]*.py')):
        pid = os.path.basename(p)[:-3]
        for s in importlib.import_module('checks.' + pid).scenarios():
            out.append((pid.upper(), s))
    return out


def _cov(i):
    from engine import explore
    pid, s = SC[i]
    t = time.time()
    r = explore.explore(explore._PROG, s, 'quick')
    return (pid, s.name, set(r.covered), time.time() - t, r.complete, len(r.violations))


SC = []


def cover(out):
    from engine import explore
    global SC
    SC = all_scenarios()
    explore._PROG = explore.load('/repo')
    res = pickle.load(open(out, 'rb')) if os.path.exists(out) else []
    have = {r[:2] for r in res}
    with multiprocessing.get_context('fork').Pool(8) as pool:
        res += pool.map(_cov, [i for i in range(len(SC)) if (SC[i][0], SC[i][1].name) not in have], chunksize=1)
    pickle.dump(res, open(out, 'wb'))
    print(len(res), sum(r[3] for r in res))


def stmt_lines(src, line):
    """Lines under which the statement around a line is recorded as covered."""
    best = None
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.stmt, ast.ExceptHandler)) and n.lineno <= line <= n.end_lineno:
            if best is None or n.lineno >= best.lineno:
                best = n
    if isinstance(best, ast.ExceptHandler):
        for n in ast.walk(tree):
            if isinstance(n, ast.Try) and best in n.handlers:
                return {b.lineno for b in n.body}
    if isinstance(best, ast.FunctionDef):
        return {b.lineno for b in best.body}
    return {line, best.lineno} if best is not None else {line}


def work(args):
    m, cov, budget = args
    d = '/tmp/mc/w%d' % os.getpid()
    if not os.path.exists(d):
        subprocess.run(['git', 'clone', '-q', BASE, d], check=True)
    p = d + '/' + m['file']
    src = open(BASE + '/' + m['file']).read()
    t0 = time.time()
    try:
        open(p, 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
        if 'alive' not in m:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=d + '/.pyc', PYTHONHASHSEED='0',
                       OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            try:
                r = subprocess.run([PY, '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'],
                                   cwd=d, env=env, capture_output=True, text=True, timeout=120)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc:
                return dict(m, res='tests', t=time.time() - t0)
            if budget is None:
                return dict(m, alive=1)
        from engine import explore
        from engine.program import LoadError
        try:
            prog = explore.load(d)
            if prog.errors:
                return dict(m, res='load:%s' % prog.errors[:1])
        except LoadError as e:
            return dict(m, res='loaderror')
        # baseline coverage per scenario, by (rel, line)
        per = {}
        at = {(s[0], s[1].name): i for i, s in enumerate(SC)}
        hit = stmt_lines(src, m['line'])
        for pid, name, lines, wall, comp, nv in cov:
            i = at.get((pid, name))
            if i is not None and any(l in hit and m['file'].endswith(f) for f, l in lines if l in hit):
                per.setdefault(pid, []).append((wall, i))
        order = []
        k = 0
        for v in per.values():
            v.sort()
        while True:
            row = [v[k] for v in per.values() if k < len(v)]
            if not row:
                break
            order += sorted(row)
            k += 1
        t1 = time.time()
        ran = 0
        for wall, i in order:
            if time.time() - t1 > budget:
                break
            pid, s = SC[i]
            ran += 1
            old = s.wall
            s.wall = min(s.wall, 25)
            try:
                r = explore.explore(prog, s, 'quick', stop_after=1)
            finally:
                s.wall = old
            if r.error:
                return dict(m, res='ERROR %s %s %s' % (pid, s.name, r.error[-300:]), t=time.time() - t0)
            if r.violations:
                return dict(m, res='%s/%s' % (pid, s.name), rule=r.violations[0]['rule'], t=time.time() - t0)
        return dict(m, res='SURVIVED', ran=ran, of=len(order), checks=sorted(per), t=time.time() - t0)
    except Exception as e:
        import traceback
        return dict(m, res='CRASH ' + traceback.format_exc()[-400:])
    finally:
        open(p, 'w').write(src)


def run(inp, covf, resf, budget=90):
    global SC
    SC = all_scenarios()
    cov = pickle.load(open(covf, 'rb')) if covf else None
    ms = [m for m in map(json.loads, open(inp)) if 'res' not in m]
    done = set()
    if os.path.exists(resf):
        done = {json.loads(l)['id'] for l in open(resf)}
    todo = [(m, cov, float(budget) if budget else None) for m in ms if m['id'] not in done]
    import random
    random.Random(1).shuffle(todo)
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('MC_JOBS', '8'))) as pool, open(resf, 'a') as f:
        for r in pool.imap_unordered(work, todo, chunksize=1):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'gen':
        gen(sys.argv[2])
    elif c == 'cover':
        cover(sys.argv[2])
    elif c == 'tests':
        run(sys.argv[2], None, sys.argv[3], None)
    else:
        run(*sys.argv[2:6])
