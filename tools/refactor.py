#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole library, to see that no check raises
an alarm on them (development tool; no check uses it).

  refactor.py OUTDIR KIND[,KIND...]    writes a rewritten copy of /repo to OUTDIR
"""
import ast
import copy
import os
import subprocess
import sys


def names_used(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


class Base(ast.NodeTransformer):
    count = 0

    def fresh(self, p):
        Base.count += 1
        return '%s_%d' % (p, Base.count)


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


class Ret(Base):
    """return E -> result = E; return result"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        v = self.fresh('result')
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]


class FlipIf(Base):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class ElseAfterReturn(Base):
    """if c: return/raise; rest -> if c: return else: rest"""
    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) \
                    and i + 1 < len(body):
                return body[:i] + [ast.If(s.test, s.body, self.fix(body[i + 1:]))]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body)
        return n


class SplitAnd(Base):
    """if a and b: X -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class Temps(Base):
    """condition into a variable first"""
    def visit_If(self, n):
        self.generic_visit(n)
        v = self.fresh('cond')
        if has(n.test, ast.NamedExpr, ast.Yield):
            return n
        return [ast.Assign([ast.Name(v, ast.Store())], n.test), ast.If(ast.Name(v, ast.Load()), n.body, n.orelse)]

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n


class Isinst(Base):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) and \
                isinstance(n.args[0], ast.Name) and n.args[1].elts:
            return ast.BoolOp(ast.Or(), [ast.Call(ast.Name('isinstance', ast.Load()), [n.args[0], e], [])
                                         for e in n.args[1].elts])
        return n


class Comp(Base):
    """x = [f(v) for v in it if c] -> loop"""
    def conv(self, comp, v):
        g = comp.generators
        if len(g) != 1:
            return None
        if isinstance(comp, ast.ListComp):
            init, add = ast.List([], ast.Load()), 'append'
        elif isinstance(comp, ast.SetComp):
            init, add = ast.Call(ast.Name('set', ast.Load()), [], []), 'add'
        else:
            return None
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), add, ast.Load()), [comp.elt], []))]
        for c in reversed(g[0].ifs):
            body = [ast.If(c, body, [])]
        # loop variable must not clobber a local
        ren = {t: self.fresh(t) for t in names_used(g[0].target)}
        loop = ast.For(g[0].target, g[0].iter, body, [])
        it = copy.deepcopy(g[0].iter)
        for x in ast.walk(loop):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        loop.iter = it
        return [ast.Assign([ast.Name(v, ast.Store())], init), loop]

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, (ast.ListComp, ast.SetComp)) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id not in names_used(n.value):
            r = self.conv(n.value, n.targets[0].id)
            return r or n
        return n

    def visit_Return(self, n):
        if isinstance(n.value, (ast.ListComp, ast.SetComp)):
            v = self.fresh('items')
            r = self.conv(n.value, v)
            if r:
                return r + [ast.Return(ast.Name(v, ast.Load()))]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n


class While(Base):
    """for x in it: -> while with an explicit iterator"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = self.fresh('iterator')
        step = ast.Try([ast.Assign([n.target], ast.Call(ast.Name('next', ast.Load()), [ast.Name(it, ast.Load())], []))],
                       [ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None, [ast.Break()])], [], [])
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [n.iter], [])),
                ast.While(ast.Constant(True), [step] + n.body, [])]

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n


class Index(While):
    """for x in it: -> index loop over list(it)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or has(n, ast.Continue):
            return n
        it, i = self.fresh('items'), self.fresh('i')
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [n.iter], [])),
                ast.For(ast.Name(i, ast.Store()), ast.parse('range(len(%s))' % it, mode='eval').body,
                        [ast.Assign([n.target], ast.parse('%s[%s]' % (it, i), mode='eval').body)] + n.body, [])]


class Rename(Base):
    """rename locals that no nested scope uses"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        nested = set()
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp,
                                             ast.DictComp, ast.GeneratorExp)):
                nested |= names_used(x) | {a.arg for y in ast.walk(x) if isinstance(y, ast.arguments) for a in y.args}
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                nested |= set(x.names)
            if x is not n and isinstance(x, ast.FunctionDef):
                nested.add(x.name)
        params = {a.arg for a in n.args.args + n.args.kwonlyargs}
        params |= {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        loc = {x for s in n.body for x in names_used(s, ast.Store)} - nested - params
        loc -= {h.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) for h in [x] if h.name}
        loc -= {a.asname or a.name for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = x.id + '_local'
        return n


class Helper(Base):
    """the body of each method moves into a helper method; of each function into a helper function"""
    def __init__(self):
        self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                out.append(self.visit(s))
            elif isinstance(s, ast.FunctionDef) and self.ok(s):
                h, s2 = self.split(s, '_%s_%s' % (n.name.lower(), s.name.strip('_')), True)
                out += [h, s2] if h else [s]
            else:
                out.append(s)
        self.cls.pop()
        n.body = out
        return n

    def ok(self, s):
        return not s.decorator_list and len(s.body) > 1 and not has(s, ast.Yield, ast.YieldFrom) and \
            s.name not in ('__new__', '__call__') and not s.name.startswith('_') or s.name in ('__init__',)

    def split(self, s, name, method):
        body = list(s.body)
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if not body:
            return None, s
        # a zero-argument super() keeps its class in a helper of the same class
        a = s.args
        h = ast.FunctionDef(name, copy.deepcopy(a), body, [], None)
        h.args.defaults = []
        h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
        pos = [x.arg for x in a.args]
        call = '%s(%s)' % (('self.' + name) if method else name, ', '.join(
            pos[1 if method else 0:] + (['*' + a.vararg.arg] if a.vararg else []) +
            ['%s=%s' % (k.arg, k.arg) for k in a.kwonlyargs] + (['**' + a.kwarg.arg] if a.kwarg else [])))
        if method and (not pos or pos[0] != 'self'):
            return None, s
        s.body = doc + [ast.Return(ast.parse(call, mode='eval').body)]
        return h, s

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                out.append(self.visit(s))
            elif isinstance(s, ast.FunctionDef) and self.ok(s):
                h, s2 = self.split(s, '_do_' + s.name, False)
                out += [h, s2] if h else [s]
            else:
                out.append(s)
        n.body = out
        return n


class Noop(Base):
    """a statement that does nothing at the start of each function"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.parse('_nothing = None').body[0])
        return n


class Kwargs(Base):
    """get with default, dict views, membership spelled otherwise"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('iteritems', 'itervalues') and len(n.args) == 1:
            return ast.Call(ast.Attribute(n.args[0], n.func.id[4:], ast.Load()), [], [])
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                and n.keywords and not n.args and all(k.arg for k in n.keywords) and n.func.value.value.count('{') == len(n.keywords) \
                and ':' not in n.func.value.value and '!' not in n.func.value.value:
            vals, s = [], n.func.value.value
            kw = {k.arg: k.value for k in n.keywords}
            while '{' in s:
                a, b = s.split('{', 1)
                f, s = b.split('}', 1)
                if f not in kw:
                    return n
                vals += [ast.Constant(a), ast.FormattedValue(kw[f], -1)]
            return ast.JoinedStr(vals + [ast.Constant(s)])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and \
                isinstance(n.left, ast.Name) and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
            r = ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [e]) for e in n.comparators[0].elts])
            return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        return n


class Super(Base):
    """super(C, self) -> super(); C.__init__ stays"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and len(n.args) == 2 and self.depth == 1 and \
                isinstance(n.args[0], ast.Name) and n.args[0].id == self.cls:
            return ast.Call(n.func, [], [])
        return n
    depth, cls = 0, None

    def visit_ClassDef(self, n):
        old = self.cls
        self.cls = n.name
        self.generic_visit(n)
        self.cls = old
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_ListComp(self, n):
        return n
    visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_Lambda = visit_ListComp


class Any(Base):
    """for x in it: if c: return True / return False -> any(); tail return of loops"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        b = n.body
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Constant) and \
                isinstance(b[-1].value.value, bool) and isinstance(b[-2], ast.For) and len(b[-2].body) == 1 and \
                isinstance(b[-2].body[0], ast.If) and not b[-2].body[0].orelse and len(b[-2].body[0].body) == 1 and \
                isinstance(b[-2].body[0].body[0], ast.Return) and isinstance(b[-2].body[0].body[0].value, ast.Constant) and \
                b[-2].body[0].body[0].value.value is (not b[-1].value.value):
            f = b[-2]
            e = ast.Call(ast.Name('any', ast.Load()), [ast.GeneratorExp(f.body[0].test, [ast.comprehension(f.target, f.iter, [], 0)])], [])
            if b[-1].value.value:
                e = ast.UnaryOp(ast.Not(), e)
            n.body = b[:-2] + [ast.Return(e)]
        return n


class Finally(Base):
    """try: A finally: F -> with a context manager made from a generator"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if n.finalbody and not n.handlers and not n.orelse:
            v = self.fresh('leave')
            fn = ast.FunctionDef(v, ast.arguments([], [], None, [], [], None, []), n.finalbody, [], None)
            st = names_used(ast.Module(n.finalbody, []), ast.Store)
            if st:
                return n
            return [fn, ast.With([ast.withitem(ast.parse('__import__("contextlib").ExitStack()', mode='eval').body,
                                               ast.Name(v + '_s', ast.Store()))],
                                 [ast.parse('%s_s.callback(%s)' % (v, v)).body[0]] + n.body)]
        return n


KINDS = {'ret': Ret, 'flip': FlipIf, 'else': ElseAfterReturn, 'and': SplitAnd, 'temps': Temps, 'isinst': Isinst,
         'comp': Comp, 'while': While, 'index': Index, 'rename': Rename, 'helper': Helper, 'noop': Noop, 'kwargs': Kwargs,
         'super': Super, 'any': Any, 'finally': Finally}


def main(out, kinds):
    subprocess.run(['git', 'clone', '-q', '/repo', out], check=True)
    for dp, dn, fs in os.walk(out + '/properties'):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                src = open(p).read()
                t = ast.parse(src)
                for k in kinds.split(','):
                    t = ast.fix_missing_locations(KINDS[k]().visit(t))
                new = ast.unparse(t)
                if 'finally' in kinds:
                    new = new.replace('__import__("contextlib")', 'contextlib').replace("__import__('contextlib')", 'contextlib')
                    if 'contextlib' in new:
                        lines = new.split('\n')
                        i = max([j for j, l in enumerate(lines) if l.startswith('from __future__')] + [-1]) + 1
                        lines.insert(i, 'import contextlib')
                        new = '\n'.join(lines)
                open(p, 'w').write(new + '\n')


if __name__ == '__main__':
    main(*sys.argv[1:3])
