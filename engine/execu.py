"""Statements, expressions and calls."""
import ast
import sys

from .terms import (T, C, NONE, TRUE, FALSE, Term, is_const, cval, ext, bi, tup, show, skey)
from .interp import (EXT_BASES, is_abc, Interp, Cell, ClassData, FuncData, Frame, AbsRaise, Signal, ReturnSig,
                     BreakSig, ContinueSig, StopEach, PathAbort, MISSING, NOARG)
from . import models

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
          ast.RShift: '>>', ast.MatMult: '@'}
BINDUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
             '|': 'or', '&': 'and', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}


class EndlessRecursion(BaseException):
    """A client whose recursion has to end reached the bound."""


NUMERIC = (int, float, complex, bool)
UNNUMERIC = (str, bytes, list, tuple, dict, set, frozenset, type(None), type)


class Engine(Interp):

    MAX_DEPTH = 60
    MAX_REC = 6
    endless = False

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    last_lib = None

    def exec_stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathAbort('step bound')
        self.node = s
        self.file = fr.module_file
        cov = self.prog.covered
        cov.add((fr.module_file, s.lineno))
        if not self.in_spec and fr.module_file[:10] == 'properties':
            self.last_lib = (fr.module_file, s.lineno)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.imprecise('statement ' + type(s).__name__)
            return
        m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Global(self, s, fr):
        fr.globals = tuple(fr.globals) + tuple(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def x_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value is not None else NONE)

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr, t)
            self.store_name(t.id, self.aug(op, cur, self.ev(s.value, fr), s), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.get_attr(o, t.attr, s)
            self.set_attr(o, t.attr, self.aug(op, cur, self.ev(s.value, fr), s), s)
        else:
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            cur = self.get_item(o, k, s)
            self.set_item(o, k, self.aug(op, cur, self.ev(s.value, fr), s), s)

    def aug(self, op, a, b, node):
        a = self.norm(a)
        if a.op == 'ref':
            c = self.rd(a)
            w = self.override(a, '__i%s__' % BINDUNDER[op])
            if w is not MISSING:
                return self.call(self.bind(w, a, c.cls), [b], {}, node)
            if c.kind == 'list' and op == '+':
                models.list_meth(self, a, 'extend', [b], {}, node)
                return a
            if c.kind == 'set' and op in '|&-^':
                n = {'|': 'update', '&': 'intersection_update', '-': 'difference_update',
                     '^': 'symmetric_difference_update'}[op]
                models.set_meth(self, a, n, [b], {}, node)
                return a
            if c.kind == 'dict' and op == '|':
                models.dict_meth(self, a, 'update', [b], {}, node)
                return a
            if c.kind == 'obj':
                f = self.class_lookup(c.cls, '__i%s__' % BINDUNDER[op])
                if f is not MISSING:
                    return self.call(self.bind(f, a, c.cls), [b], {}, node)
        elif a.op not in ('const', 'tuple', 'ext', 'bound'):
            pt = self.pytype(a)
            if pt not in (int, float, str, bool, complex, tuple, bytes):
                self.mutated(a, op + '=', node)
        return self.binop(op, a, b, node)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.set_item(o, self.ev_slice(t.slice, fr), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts), bool(star), t)
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                mid = items[i:len(items) - after]
                vals = items[:i] + [self.new_list(mid)] + items[len(items) - after:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.imprecise('assignment target')

    def unpack(self, v, n, star, node):
        v = self.norm(v)
        known = v.op in ('tuple', 'const') or (v.op == 'ref' and self.rd(v).kind in
                                               ('list', 'set', 'dict', 'gen', 'iter', 'obj'))
        if known or v in self.mat:
            items = self.to_items(v)
            if (not star and len(items) != n) or (star and len(items) < n - 1):
                self.raise_(bi('ValueError'), node)
            return items
        if star:
            return self.to_items(v)
        for cls in self.raise_for(T('unpack', v, C(n))):
            self.raise_(cls, node)
        self.mat.setdefault(v, [T('item', v, C(i)) for i in range(n)])
        self.facts[self.pair('eq', T('len', v), C(n))] = True
        return list(self.mat[v])

    def raise_for(self, term):
        if self.raises is None:
            return []
        return self.pick_raise(term, self.raises(self, term))

    def x_Delete(self, s, fr):
        for t in s.targets:
            self.delete(t, fr, s)

    def delete(self, t, fr, s):
        if isinstance(t, ast.Name):
            f = fr
            if t.id in f.vars:
                del f.vars[t.id]
            else:
                self.raise_(bi('NameError'), s)
        elif isinstance(t, ast.Attribute):
            self.del_attr(self.ev(t.value, fr), t.attr, s)
        elif isinstance(t, ast.Subscript):
            self.del_item(self.ev(t.value, fr), self.ev_slice(t.slice, fr), s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, fr, s)

    def x_If(self, s, fr):
        if self.cond(s.test, fr):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def cond(self, node, fr):
        return self.truth(self.ev(node, fr))

    def x_While(self, s, fr):
        n = total = 0
        seen = len(self.trail)
        while True:
            if not self.cond(s.test, fr):
                self.exec_block(s.orelse, fr)
                return
            # rounds that needed no case split are driven by known values
            total += 1
            if len(self.trail) != seen:
                seen = len(self.trail)
                n += 1
            if n > 12 or total > 2000:
                raise PathAbort('loop bound')
            try:
                self.exec_block(s.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def body(x):
            self.assign(s.target, x, fr)
            try:
                self.exec_block(s.body, fr)
            except ContinueSig:
                pass
        try:
            self.iter_each(it, body, s.iter)
        except BreakSig:
            return
        self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            self.raise_(bi('AssertionError'), s)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.prog.import_module(self, a.name, soft=True)
            if a.asname:
                self.store_name(a.asname, m if m is not None else ext(self.prog.canon(a.name)), fr)
            else:
                top = a.name.split('.')[0]
                m = self.prog.import_module(self, top, soft=True)
                self.store_name(top, m if m is not None else ext(top), fr)

    def x_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            mod = self.rd(fr.module).data
            parts = mod.name.split('.')
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base == '__future__':
            return
        m = self.prog.import_module(self, base, soft=True)
        for a in s.names:
            if a.name == '*':
                if m is not None:
                    for k, v in list(self.rd(m).data.ns.items()):
                        if not k.startswith('_'):
                            self.store_name(k, v, fr)
                continue
            if m is not None:
                v = self._get_attr(m, a.name, s, True)
                if v is MISSING:
                    self.raise_(bi('ImportError'), s)
            else:
                v = self.prog.ext_attr(ext(self.prog.canon(base)), a.name)
            self.store_name(a.asname or a.name, v, fr)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {}, d)
        self.store_name(s.name, f, fr)

    def make_func(self, node, fr, name=None):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, fr) for d in a.kw_defaults]
        name = name or getattr(node, 'name', '<lambda>')
        parent = fr
        if fr.is_class:
            qual = fr.self_cls + '.' + name
            parent = fr.parent
        elif fr.func is not None:
            qual = fr.func.qual + '.<locals>.' + name
        else:
            qual = self.rd(fr.module).data.name + '.' + name
        fd = FuncData(node, name, qual, fr.module, parent if parent.func is not None or parent.parent is not None else None,
                      defaults, kwd)
        fd.mod_frame = fr
        if parent.func is None and parent.parent is None:
            fd.frame = None
        return self.alloc(Cell('func', None, fd))

    def x_ClassDef(self, s, fr):
        meta = None
        bases = []
        for b in s.bases:
            v = self.norm(self.ev(b, fr))
            if v.op == 'withmeta':
                meta = v.args[0]
                bases.extend(v.args[1])
            else:
                bases.append(v)
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, fr)
        modname = self.rd(fr.module).data.name
        prefix = modname if fr.func is None and not fr.is_class else (
            fr.self_cls if fr.is_class else fr.func.qual + '.<locals>')
        qual = prefix + '.' + s.name
        cf = self.new_frame(fr.module, fr, fr.func, True)
        cf.self_cls = qual
        cf.vars['__module__'] = C(modname)
        cf.vars['__qualname__'] = C(s.name)
        doc = ast.get_docstring(s, clean=False)
        if doc is not None:
            cf.vars['__doc__'] = C(doc)
        self.exec_block(s.body, cf)
        if not bases:
            bases = [bi('object')]
        for b in bases:
            if b.op == 'ext' and b.args[0].split('.')[0] in STDLIB and b.args[0] not in EXT_CLASSES and \
                    not b.args[0].startswith('builtins.') and not is_abc(b.args[0]) and b.args[0] not in PLAIN_BASES:
                self.imprecise('subclass of ' + b.args[0])
        m = meta
        for b in bases:
            if b.op == 'ref' and self.rd(b).kind == 'class':
                mb = self.metaclass(b)
                if mb.op == 'ref' and (m is None or m.op != 'ref' or self.subclass_known(mb, m)):
                    m = mb
        ns = cf.vars
        if m is not None and m.op == 'ref':
            d = self.new_dict([[C(k), v] for k, v in ns.items()])
            # methods know the class whose body they were written in
            funcs = list(ns.values())
            nargs = [C(s.name), tup(*bases), d]
            self.pending_owner = funcs
            ref = self.call_class(m, nargs, {}, s)
            ref = self.norm(ref)
            if ref.op == 'ref' and self.rd(ref).kind == 'class':
                cd = self.wr(ref).data
                cd.qual = qual
                if cd.meta is None:
                    cd.meta = m
                for v in funcs:
                    self.own(v, ref)
        else:
            cell = Cell('class', None, ClassData(s.name, qual, bases, ns, meta, modname))
            ref = self.alloc(cell)
            for v in ns.values():
                self.own(v, ref)
        if self.prog.loading and ref.op == 'ref':
            self.prog.classes[qual] = ref
        out = ref
        for d in reversed(s.decorator_list):
            out = self.call(self.ev(d, fr), [out], {}, d)
        self.store_name(s.name, out, fr)

    def own(self, v, cls):
        if v.op != 'ref':
            return
        c = self.rd(v)
        if c.kind == 'func':
            if c.data.owner_cls is None:
                c.data.owner_cls = cls
        elif c.kind == 'property':
            for f in c.data:
                if f is not None:
                    self.own(f, cls)
        elif c.kind in ('static', 'classm'):
            self.own(c.data, cls)

    def new_frame(self, module, parent=None, func=None, is_class=False):
        f = EFrame(module, parent, func, is_class)
        f.module_file = self.rd(module).data.path if module is not None else '<spec>'
        return f

    def x_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is None:
                self.raise_(bi('RuntimeError'), s)
            raise AbsRaise(f.exc, s, self.where(s))
        v = self.norm(self.ev(s.exc, fr))
        if s.cause is not None:
            self.ev(s.cause, fr)
        self.node = s
        if self.is_class(v):
            v = self.call(v, [], {}, s)
        elif v.op in ('const', 'tuple') or (v.op == 'ref' and self.rd(v).kind in ('list', 'dict', 'set', 'func')):
            self.raise_(bi('TypeError'), s)
        self.event('raise', None, v, node=s)
        raise AbsRaise(v, s, self.where(s))

    def x_Try(self, s, fr):
        pending = None
        try:
            try:
                self.exec_block(s.body, fr)
            except AbsRaise as e:
                saved_node = self.node
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.ev(h.type, fr)):
                        old = fr.exc
                        fr.exc = e.exc
                        if h.name:
                            fr.vars[h.name] = e.exc
                        self.event('caught', None, e.exc, node=h)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    self.node = saved_node
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (AbsRaise, Signal) as e:
            pending = e
        if s.finalbody:
            self.exec_block(s.finalbody, fr)
        if pending is not None:
            raise pending

    x_TryStar = x_Try

    def exc_matches(self, exc, h):
        h = self.norm(h)
        if h.op == 'tuple':
            return any([self.exc_matches(exc, x) for x in h.args][:]) if False else self._any_match(exc, h.args)
        items = self.container_items(h)
        if items is not None:
            return self._any_match(exc, items)
        r = self.isinst(exc, h)
        if r is None:
            return self.atom(T('isinst', exc, h))
        return r

    def _any_match(self, exc, hs):
        for x in hs:
            if self.exc_matches(exc, x):
                return True
        return False

    def x_With(self, s, fr):
        self._with(s.items, s.body, fr, s)

    def _with(self, items, body, fr, s):
        if not items:
            self.exec_block(body, fr)
            return
        item, rest = items[0], items[1:]
        cm = self.norm(self.ev(item.context_expr, fr))

        def inner(val):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, fr)
            self._with(rest, body, fr, s)
        self.run_with(cm, inner, s)

    def run_with(self, cm, inner, s):
        if cm.op == 'ref' and self.rd(cm).kind == 'cm':
            f, args, kwargs = self.rd(cm).data
            state = {'n': 0}

            def hook(v):
                state['n'] += 1
                inner(v)
                return NONE
            self.run_generator(f, args, kwargs, hook, s)
            return
        if cm.op == 'suppress':
            try:
                inner(NONE)
            except AbsRaise as e:
                if not self._any_match(e.exc, cm.args):
                    raise
            return
        ent = self._get_attr(cm, '__enter__', s, False)
        if ent is MISSING or cm.op == 'ref' and self.rd(cm).kind == 'obj' and ent.op == 'attr':
            if ent is MISSING:
                self.raise_(bi('AttributeError'), s)
        if cm.op == 'ref' and self.rd(cm).kind == 'obj' and ent.op == 'bound':
            ext_f = self.get_attr(cm, '__exit__', s)
            self.event('enter', None, cm, node=s)
            v = self.call(ent, [], {}, s)
            try:
                inner(v)
            except AbsRaise as e:
                ecls = self.typeof(e.exc) or T('typeof', e.exc)
                self.event('exit', None, cm, node=s)
                r = self.call(ext_f, [ecls, e.exc, T('sym', 'traceback')], {}, s)
                if self.truth(r):
                    return
                raise
            except Signal:
                self.event('exit', None, cm, node=s)
                self.call(ext_f, [NONE, NONE, NONE], {}, s)
                raise
            self.event('exit', None, cm, node=s)
            self.call(ext_f, [NONE, NONE, NONE], {}, s)
            return
        # opaque context manager
        self.event('enter', None, cm, node=s)
        try:
            inner(cm if self.opaque_enter_self(cm) else T('entered', cm))
        finally:
            self.event('exit', None, cm, node=s)

    def opaque_enter_self(self, cm):
        return True

    # -------------------------------------------------------------- generators
    def run_generator(self, f, args, kwargs, hook, node):
        fd = self.rd(f).data
        fr = self.bind_args(fd, args, kwargs, node)
        fr.yield_hook = hook
        self.prog.visited.add(fd.qual)
        file, nd = self.file, self.node
        try:
            self.exec_block(fd.node.body, fr)
        except ReturnSig as r:
            return r.value
        finally:
            self.file, self.node = file, nd
        return NONE

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else NONE
        f = fr
        while f is not None and f.yield_hook is None:
            f = f.parent
        if f is None:
            self.imprecise('yield outside a generator')
            return NONE
        f.yield_hook(v)
        return NONE

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f is not None and f.yield_hook is None:
            f = f.parent
        if f is None:
            self.imprecise('yield outside a generator')
            return NONE
        self.iter_each(v, lambda x: f.yield_hook(x), n)
        return NONE

    # -------------------------------------------------------------- iteration
    def iter_each(self, v, cb, node=None):
        v = self.norm(v)
        if v.op == 'tuple':
            for x in v.args:
                cb(x)
            return
        if v.op == 'const':
            cv = cval(v)
            if isinstance(cv, str):
                for ch in cv:
                    cb(C(ch))
                return
            if isinstance(cv, bytes):
                for ch in cv:
                    cb(C(ch))
                return
            self.raise_(bi('TypeError'), node)
        if v.op == 'ref':
            c = self.rd(v)
            k = c.kind
            if k == 'list':
                i = 0
                while i < len(self.rd(v).data):
                    cb(self.rd(v).data[i])
                    i += 1
                    if i > 500:
                        raise PathAbort('loop bound')
                return
            if k == 'set':
                for x in list(c.data):
                    cb(x)
                return
            if k == 'dict':
                for x, _ in list(c.data):
                    cb(x)
                return
            if k == 'gen':
                self.gen_each(v, cb, node)
                return
            if k == 'iter':
                while True:
                    c = self.wr(v)
                    if not c.data:
                        return
                    x = c.data.pop(0)
                    cb(x)
            if k == 'obj' or k == 'class':
                cls = c.cls if k == 'obj' else self.metaclass(v)
                f = self.class_lookup(cls, '__iter__') if cls.op == 'ref' else MISSING
                if f is not MISSING:
                    r = self.norm(self.call(self.bind(f, v, cls), [], {}, node))
                    rc = self.rd(r) if r.op == 'ref' else None
                    nx = self.class_lookup(rc.cls, '__next__') if rc is not None and rc.kind == 'obj' else MISSING
                    if nx is not MISSING:
                        for _ in range(300):
                            try:
                                x = self.call(self.bind(nx, r, rc.cls), [], {}, node)
                            except AbsRaise as e:
                                if self.isinst(e.exc, bi('StopIteration')) is True:
                                    return
                                raise
                            cb(x)
                        raise PathAbort('loop bound')
                    if r is not v:
                        self.iter_each(r, cb, node)
                        return
                elif k == 'obj' and self.class_lookup(cls, '__getitem__') is not MISSING:
                    g = self.class_lookup(cls, '__getitem__')
                    for i in range(300):
                        try:
                            x = self.call(self.bind(g, v, cls), [C(i)], {}, node)
                        except AbsRaise as e:
                            if self.isinst(e.exc, bi('IndexError')) is True:
                                return
                            raise
                        cb(x)
                    raise PathAbort('loop bound')
                if k == 'obj' and c.extra and 'fields' in c.extra:
                    for n in c.extra['fields']:
                        cb(c.attrs[n])
                    return
                self.raise_(bi('TypeError'), node)
            self.raise_(bi('TypeError'), node)
        if v.op in ('bound', 'bmeth', 'not', 'is', 'eq', 'lt', 'in', 'isinst'):
            self.raise_(bi('TypeError'), node)
        for x in self.materialise(v, node):
            cb(x)

    def gen_each(self, v, cb, node):
        c = self.rd(v)
        kind = c.data[0]
        if c.extra and c.extra.get('used'):
            return
        w = self.wr(v)
        w.extra = dict(w.extra or {}, used=True)
        if kind == 'genexp':
            _, n, fr, first = c.data
            self.comp_loop(n.generators, 0, self.child_frame(fr), lambda f: cb(self.ev(n.elt, f)), first)
        elif kind == 'func':
            _, f, args, kwargs = c.data
            self.run_generator(f, args, kwargs, cb, node)
        elif kind == 'map':
            _, f, its = c.data
            if len(its) == 1:
                self.iter_each(its[0], lambda x: cb(self.call(f, [x], {}, node)), node)
            else:
                lists = [self.to_items(i) for i in its]
                for xs in zip(*lists):
                    cb(self.call(f, list(xs), {}, node))
        elif kind == 'filter':
            _, f, it = c.data

            def test(x):
                if self.truth(x if f is NONE else self.call(f, [x], {}, node)):
                    cb(x)
            self.iter_each(it, test, node)
        elif kind == 'enumerate':
            _, it, start = c.data
            st = {'i': start}

            def en(x):
                i = st['i']
                st['i'] += 1
                cb(tup(C(i) if isinstance(i, int) else i, x))
            self.iter_each(it, en, node)
        elif kind == 'zip':
            lists = [self.to_items(i) for i in c.data[1]]
            for xs in zip(*lists):
                cb(tup(*xs))
        elif kind == 'chain':
            for i in c.data[1]:
                self.iter_each(i, cb, node)
        else:
            raise PathAbort('generator ' + kind)

    def to_items(self, v, node=None):
        out = []
        self.iter_each(v, out.append, node)
        return out

    def materialise(self, v, node=None):
        """Elements of an unknown iterable: 0..K distinguished elements."""
        if v in self.mat:
            return list(self.mat[v])
        pt = self.pytype(v)
        if pt in (int, float, bool, complex, type(None)):
            self.raise_(bi('TypeError'), node)
        for cls in self.raise_for(T('iter', v)):
            self.raise_(cls, node)
        e0 = self.facts.get(T('truthy', v))
        n = None
        for i in range(0, self.K + 3):
            if self.facts.get(self.pair('eq', T('len', v), C(i))):
                n = i
        if n is None:
            if e0 is True:
                n = 1 + self.choose(self.K, T('size', v))
            elif e0 is False:
                n = 0
            else:
                n = self.choose(self.K + 1, T('size', v))
        items = [T('elem', v, i) for i in range(n)]
        self.mat[v] = items
        self.facts[self.pair('eq', T('len', v), C(n))] = True
        if pt is dict or pt is set:
            for i in range(n):
                for j in range(i):
                    self.facts[self.pair('eq', items[i], items[j])] = False
        return list(items)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathAbort('step bound')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.imprecise('expression ' + type(n).__name__)
            return T('unknown', type(n).__name__)
        r = m(n, fr)
        if r.op in ('sym', 'attr', 'item', 'call', 'mcall', 'elem', 'op'):
            r = self.norm(r)
        return r

    def e_Constant(self, n, fr):
        if n.value is Ellipsis:
            return ext('builtins.Ellipsis')
        return C(n.value)

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr, n)

    def load_name(self, name, fr, node=None):
        f = fr
        if name not in fr.globals:
            while f is not None:
                if name in f.vars and (f is fr or not f.is_class):
                    return f.vars[name]
                f = f.parent
        if name == '__class__':
            f = fr
            while f is not None:
                if f.func is not None and f.func.owner_cls is not None:
                    return f.func.owner_cls
                f = f.parent
        ns = self.rd(fr.module).data.ns if fr.module is not None else {}
        if name in ns:
            r = ns[name]
            if self.stubs and r.op == 'ext':
                return self.stubs.get(r.args[0], r)
            return r
        sp = self.prog.spec_names.get(name)
        if sp is not None and fr.module is None:
            return sp
        import builtins
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return C(getattr(builtins, name))
            if name == 'IOError' or name == 'EnvironmentError':
                name = 'OSError'
            return bi(name)
        if name == '__name__':
            return C(self.rd(fr.module).data.name)
        if name == '__file__':
            return C(self.rd(fr.module).data.path)
        self.raise_(bi('NameError'), node)

    def store_name(self, name, v, fr):
        if name in fr.globals:
            self.wr(fr.module).data.ns[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars and not f.is_class:
                    f.vars[name] = v
                    return
                f = f.parent
        if fr.func is None and fr.parent is None and not fr.is_class and fr.module is not None:
            self.wr(fr.module).data.ns[name] = v
            return
        fr.vars[name] = v

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.parent is not None and getattr(f, 'comp', False):
            f = f.parent
        self.store_name(n.target.id, v, f)
        return v

    def e_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return self.norm_bool(v, False)
            if not is_and and t:
                return self.norm_bool(v, True)
        return v

    def norm_bool(self, v, val):
        if self.is_pred(v):
            return C(val)
        return v

    def is_pred(self, v):
        return v.op in ('is', 'eq', 'lt', 'in', 'not', 'isinst', 'hasattr', 'callable', 'subcls')

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            d = self.decide_truthy(v)
            if d is not None:
                return C(not d)
            if self.is_pred(v):
                return self.negate(v)
            if v.op == 'len':
                return self.cmp_eq(v, C(0))
            return T('not', v) if self.is_pred(v) else C(not self.truth(v))
        if v.op == 'const':
            try:
                if isinstance(n.op, ast.USub):
                    return C(-cval(v))
                if isinstance(n.op, ast.UAdd):
                    return C(+cval(v))
                return C(~cval(v))
            except TypeError:
                self.raise_(bi('TypeError'), n)
        return T('op', type(n.op).__name__, v)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(BINOPS[type(n.op)], a, b, n)

    def binop(self, op, a, b, node=None, raw=False):
        a, b = self.norm(a), self.norm(b)
        if a.op == 'const' and b.op == 'const':
            if op == '%' and isinstance(cval(a), str):
                pass
            try:
                import operator as o
                f = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod,
                     '**': o.pow, '|': o.or_, '&': o.and_, '^': o.xor, '<<': o.lshift, '>>': o.rshift}[op]
                if not (op in ('**', '<<') and abs(cval(b)) > 64) and not (op == '*' and isinstance(cval(b), int) and isinstance(cval(a), (str, bytes)) and cval(b) > 10000):
                    return C(f(cval(a), cval(b)))
            except ZeroDivisionError:
                self.raise_(bi('ZeroDivisionError'), node)
            except TypeError:
                self.raise_(bi('TypeError'), node)
            except OverflowError:
                self.raise_(bi('OverflowError'), node)
            except Exception:
                pass
        if op == '-' and a is b and self.pytype(a) is int:
            return C(0)
        if op == '%' and self.pytype(a) is str:
            vs = [self.val_eq(a)] + [self.val_eq(x) for x in (b.args if b.op == 'tuple' else (b,))]
            if all(v is not None and v.op == 'const' for v in vs):
                try:
                    return C(cval(vs[0]) % (tuple(cval(v) for v in vs[1:]) if b.op == 'tuple' else cval(vs[1])))
                except Exception:
                    pass
            items = b.args if b.op == 'tuple' else (b,)
            return T('str', 'format', a, *items)
        if op in ('|', '&', '-', '^'):
            a, b = self.view_set(a), self.view_set(b)
        ka = 'tuple' if a.op == 'tuple' else self.kind(a)
        kb = 'tuple' if b.op == 'tuple' else self.kind(b)
        for x, y, pre in () if raw else ((a, b, ''), (b, a, 'r')):
            w = self.override(x, '__%s%s__' % (pre, BINDUNDER[op]))
            if w is not MISSING:
                return self.call(self.bind(w, x, self.rd(x).cls), [y], {}, node)
        if op == '+':
            if ka == 'tuple' and kb == 'tuple':
                return tup(*(a.args + b.args))
            if ka == 'list' and kb == 'list':
                return self.new_list(self.rd(a).data + self.rd(b).data)
            if ka in ('list', 'tuple') and kb in ('list', 'tuple', 'dict', 'set') and ka != kb:
                self.raise_(bi('TypeError'), node)
            if self.pytype(a) is str or self.pytype(b) is str:
                return T('str', '+', a, b)
            if ka == 'list' and kb is None and b.op != 'const':
                pt = self.pytype(b)
                if pt is list or pt is None:
                    return self.new_list(self.rd(a).data + self.to_items(b, node))
            if ka == 'tuple' and kb is None and self.pytype(b) is tuple:
                return tup(*(list(a.args) + self.to_items(b, node)))
        if op == '*':
            for x, y, k in ((a, b, ka), (b, a, kb)):
                if k in ('list', 'tuple') and y.op == 'const' and isinstance(cval(y), int) and 0 <= cval(y) < 50:
                    items = list(x.args) if k == 'tuple' else list(self.rd(x).data)
                    return tup(*(items * cval(y))) if k == 'tuple' else self.new_list(items * cval(y))
        if op in ('|', '&', '-', '^') and ka == 'set' and kb == 'set':
            n = {'|': 'union', '&': 'intersection', '-': 'difference', '^': 'symmetric_difference'}[op]
            return models.set_meth(self, a, n, [b], {}, node)
        if op == '|' and ka == 'dict' and kb == 'dict':
            r = self.new_dict(self.rd(a).data)
            models.dict_meth(self, r, 'update', [b], {}, node)
            return r
        for x, y, pre in ((a, b, ''), (b, a, 'r')):
            if x.op == 'ref' and self.rd(x).kind == 'obj':
                f = self.class_lookup(self.rd(x).cls, '__%s%s__' % (pre, BINDUNDER[op]))
                if f is not MISSING:
                    return self.call(self.bind(f, x, self.rd(x).cls), [y], {}, node)
        if a is NONE or b is NONE:
            self.raise_(bi('TypeError'), node)
        if op in ('-', '/', '//', '**'):
            pa, pb = self.pytype(a), self.pytype(b)
            if (pa in NUMERIC and pb in UNNUMERIC) or (pb in NUMERIC and pa in UNNUMERIC):
                self.raise_(bi('TypeError'), node)
            if any(x.op == 'ref' and self.kind(x) in ('obj', 'class', 'func') for x in (a, b)) and \
                    all(x.op in ('const', 'ref', 'tuple') for x in (a, b)):
                self.raise_(bi('TypeError'), node)
        term = T('op', op, a, b)
        for cls in self.raise_for(term):
            self.raise_(cls, node)
        return term

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fr)
            res = self.compare(op, left, right, n)
            if i < len(n.ops) - 1:
                if not self.truth(res):
                    return FALSE
            left = right
        return res

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.cond(n.test, fr) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_List(self, n, fr):
        return self.new_list(self.ev_elts(n.elts, fr))

    def e_Tuple(self, n, fr):
        return tup(*self.ev_elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.new_set(self.ev_elts(n.elts, fr))

    def ev_elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.to_items(self.ev(e.value, fr), e))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = self.new_dict([])
        for k, v in zip(n.keys, n.values):
            if k is None:
                models.dict_meth(self, d, 'update', [self.ev(v, fr)], {}, n)
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr), n)
        return d

    def child_frame(self, fr):
        f = self.new_frame(fr.module, fr, fr.func)
        f.module_file = fr.module_file
        f.comp = True
        return f

    def comp_loop(self, gens, i, fr, cb, first=None):
        if i == len(gens):
            cb(fr)
            return
        g = gens[i]
        it = first if (i == 0 and first is not None) else self.ev(g.iter, fr)

        def body(x):
            self.assign_local(g.target, x, fr)
            for c in g.ifs:
                if not self.cond(c, fr):
                    return
            self.comp_loop(gens, i + 1, fr, cb)
        self.iter_each(it, body, g.iter)

    def assign_local(self, t, v, fr):
        self.assign(t, v, fr)

    def e_ListComp(self, n, fr):
        out = []
        first = self.ev(n.generators[0].iter, fr)
        self.comp_loop(n.generators, 0, self.child_frame(fr), lambda f: out.append(self.ev(n.elt, f)), first)
        return self.new_list(out)

    def e_SetComp(self, n, fr):
        r = self.new_set([])
        first = self.ev(n.generators[0].iter, fr)
        self.comp_loop(n.generators, 0, self.child_frame(fr), lambda f: self.set_add(r, self.ev(n.elt, f), n), first)
        return r

    def e_DictComp(self, n, fr):
        r = self.new_dict([])
        first = self.ev(n.generators[0].iter, fr)

        def one(f):
            k = self.ev(n.key, f)
            self.dict_set(r, k, self.ev(n.value, f), n)
        self.comp_loop(n.generators, 0, self.child_frame(fr), one, first)
        return r

    def e_GeneratorExp(self, n, fr):
        first = self.ev(n.generators[0].iter, fr)
        return self.alloc(Cell('gen', bi('generator'), ('genexp', n, fr, first)))

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.ev(v.value, fr))
            else:
                parts.append(C(v.value))
        if all(p.op == 'const' and isinstance(cval(p), (str, int)) for p in parts):
            return C(''.join(str(cval(p)) for p in parts))
        return T('str', 'format', *parts)

    def e_FormattedValue(self, n, fr):
        return self.ev(n.value, fr)

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        self.node = n
        r = self.get_attr(o, n.attr, n)
        self.file = fr.module_file
        return r

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return T('slice', *[NONE if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return self.ev_slice(s, fr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.ev_slice(n.slice, fr)
        self.node = n
        return self.get_item(o, k, n)

    # -------------------------------------------------------------- containers
    def dict_find(self, d, k):
        """Entry [key, value] of a known dict, or None."""
        c = self.rd(d)
        k = self.norm(k)
        for e in c.data:
            if self.norm(e[0]) is k:
                return e
        for e in c.data:
            if self.truth(self.cmp_eq(self.norm(e[0]), k)):
                return e
        return None

    def dict_set(self, d, k, v, node=None):
        self.check_hashable(k, node)
        c = self.wr(d)
        k = self.norm(k)
        e = self.dict_find(d, k)
        c = self.wr(d)
        if e is not None:
            for f in c.data:
                if f[0] is e[0]:
                    f[1] = v
        else:
            c.data.append([k, v])
        if c.owner is not None:
            self.event('setitem', None, d, args=(k,), value=v, node=node)
            self.mutated(d, '[]=', node)

    def set_add(self, s, v, node=None):
        self.check_hashable(v, node)
        v = self.norm(v)
        items = self.rd(s).data
        for i in items:
            if self.norm(i) is v:
                return
        for i in items:
            if self.truth(self.cmp_eq(self.norm(i), v)):
                return
        self.wr(s).data.append(v)

    def index_of(self, k):
        v = self.val_eq(k)
        if v is not None and isinstance(cval(v), int):
            return int(cval(v))
        return None

    def get_item(self, o, k, node=None, raw=False):
        o, k = self.norm(o), self.norm(k)
        w = MISSING if raw else self.override(o, '__getitem__')
        if w is not MISSING:
            return self.call(self.bind(w, o, self.rd(o).cls), [k], {}, node)
        if o.op == 'tuple' or (o.op == 'ref' and self.rd(o).kind == 'list'):
            items = list(o.args) if o.op == 'tuple' else self.rd(o).data
            if k.op == 'slice':
                idx = [self.index_of(x) if x is not NONE else None for x in k.args]
                if any(x is not NONE and i is None for x, i in zip(k.args, idx)):
                    self.imprecise('slice of unknown bounds')
                    return T('item', o, k)
                sub = items[slice(*idx)]
                return tup(*sub) if o.op == 'tuple' else self.new_list(sub)
            i = self.index_of(k)
            if i is None:
                pt = self.pytype(k)
                if pt is str or k is NONE or self.arrayish(k):
                    self.raise_(bi('TypeError'), node)
                for j in range(len(items)):
                    if self.truth(self.cmp_eq(k, C(j))):
                        return items[j]
                self.raise_(bi('IndexError'), node)
            try:
                return items[i]
            except IndexError:
                self.raise_(bi('IndexError'), node)
        if o.op == 'ref':
            c = self.rd(o)
            if c.kind == 'dict':
                self.check_hashable(k, node)
                e = self.dict_find(o, k)
                if e is None:
                    mm = self.class_lookup(c.cls, '__missing__') if c.cls.op == 'ref' else MISSING
                    if mm is not MISSING:
                        return self.call(self.bind(mm, o, c.cls), [k], {}, node)
                    self.raise_(bi('KeyError'), node)
                return e[1]
            if c.kind == 'obj':
                f = self.class_lookup(c.cls, '__getitem__')
                if f is not MISSING:
                    return self.call(self.bind(f, o, c.cls), [k], {}, node)
                if c.extra and 'fields' in c.extra:
                    i = self.index_of(k)
                    if i is not None:
                        return c.attrs[c.extra['fields'][i]]
            self.raise_(bi('TypeError'), node)
        if o.op == 'const':
            try:
                if k.op == 'slice':
                    idx = [None if x is NONE else self.index_of(x) for x in k.args]
                    if any(x is not NONE and i is None for x, i in zip(k.args, idx)):
                        return T('str', 'slice', o, *k.args)
                    return C(cval(o)[slice(*idx)])
                i = self.index_of(k)
                if i is not None:
                    return C(cval(o)[i])
            except IndexError:
                self.raise_(bi('IndexError'), node)
            except TypeError:
                self.raise_(bi('TypeError'), node)
        if o.op == 'ext' or o.op == 'typeof':
            return o
        ov = self.sitems.get(o)
        if ov:
            for kk, v in reversed(ov):
                if kk is k or self.truth(self.cmp_eq(kk, k)):
                    if v is None:
                        self.raise_(bi('KeyError'), node)
                    return v
        if k.op == 'const' and isinstance(cval(k), int) and o in self.mat and self.pytype(o) is not dict:
            m = self.mat[o]
            try:
                return m[cval(k)]
            except IndexError:
                self.raise_(bi('IndexError'), node)
        if k.op == 'slice' and self.pytype(o) is str:
            return T('str', 'slice', o, *k.args)
        if self.facts.get(T('in', k, o)) is False and self.pytype(o) is not str:
            self.raise_(bi('KeyError'), node)
        t = T('item', o, k)
        for cls in self.raise_for(t):
            self.raise_(cls, node)
        return t

    def override(self, o, name):
        """A method of the repository's or the client's own that a subclass of a
        builtin container puts in place of the builtin one."""
        if o.op == 'ref' and self.rd(o).cls is not None and self.rd(o).cls.op == 'ref' and \
                self.rd(o).kind in ('list', 'set', 'dict'):
            return self.class_lookup(self.rd(o).cls, name)
        return MISSING

    def set_item(self, o, k, v, node=None, raw=False):
        o, k = self.norm(o), self.norm(k)
        if o.op == 'ref':
            c = self.rd(o)
            w = MISSING if raw else self.override(o, '__setitem__')
            if w is not MISSING:
                self.call(self.bind(w, o, c.cls), [k, v], {}, node)
                return
            if c.kind == 'dict':
                self.dict_set(o, k, v, node)
                return
            if c.kind == 'list':
                i = self.index_of(k)
                if i is None:
                    if k.op == 'slice':
                        items = self.to_items(v)
                        if all(x is NONE or self.index_of(x) is not None for x in k.args):
                            self.wr(o).data[slice(*[None if x is NONE else self.index_of(x) for x in k.args])] = items
                        else:
                            self.imprecise('slice assignment')
                    else:
                        done = False
                        for j in range(len(c.data)):
                            if self.truth(self.cmp_eq(k, C(j))):
                                self.wr(o).data[j] = v
                                done = True
                                break
                        if not done:
                            self.raise_(bi('IndexError'), node)
                else:
                    if not -len(c.data) <= i < len(c.data):
                        self.raise_(bi('IndexError'), node)
                    self.wr(o).data[i] = v
                if c.owner is not None:
                    self.event('setitem', None, o, args=(k,), value=v, node=node)
                    self.mutated(o, '[]=', node)
                return
            if c.kind == 'obj':
                f = self.class_lookup(c.cls, '__setitem__')
                if f is not MISSING:
                    self.call(self.bind(f, o, c.cls), [k, v], {}, node)
                    return
            self.raise_(bi('TypeError'), node)
        if o.op in ('tuple', 'const'):
            self.raise_(bi('TypeError'), node)
        self.event('setitem', None, o, args=(k,), value=v, node=node)
        self.mutated(o, '[]=', node)
        term = T('setitem', o, k, v)
        if self.raises is not None:
            for cls in self.pick_raise_n(term, self.raises(self, term)):
                self.raise_opaque(term, cls, node)
        if self.pytype(o) in (tuple, str, int):
            self.raise_(bi('TypeError'), node)
        self.sitems.setdefault(o, []).append((k, v))

    def del_item(self, o, k, node=None, raw=False):
        o, k = self.norm(o), self.norm(k)
        if o.op == 'ref':
            c = self.rd(o)
            w = MISSING if raw else self.override(o, '__delitem__')
            if w is not MISSING:
                self.call(self.bind(w, o, c.cls), [k], {}, node)
                return
            if c.kind == 'dict':
                e = self.dict_find(o, k)
                if e is None:
                    self.raise_(bi('KeyError'), node)
                w = self.wr(o)
                w.data = [f for f in w.data if f[0] is not e[0]]
            elif c.kind == 'list':
                w = self.wr(o)
                if k.op == 'slice':
                    del w.data[slice(*[None if x is NONE else self.index_of(x) for x in k.args])]
                else:
                    i = self.index_of(k)
                    if i is None or not -len(w.data) <= i < len(w.data):
                        self.raise_(bi('IndexError'), node)
                    del w.data[i]
            else:
                self.raise_(bi('TypeError'), node)
            if c.owner is not None:
                self.event('delitem', None, o, args=(k,), node=node)
                self.mutated(o, 'del []', node)
            return
        self.event('delitem', None, o, args=(k,), node=node)
        self.mutated(o, 'del []', node)
        self.sitems.setdefault(o, []).append((k, None))

    # -------------------------------------------------------------------- calls
    def e_Call(self, n, fr):
        f = n.func
        # zero-argument super
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            g = fr
            while g is not None and (g.func is None or g.func.owner_cls is None):
                g = g.parent
            if g is not None:
                a = g.func.node.args
                first = (a.posonlyargs + a.args)[0].arg
                h = g
                while h is not None and first not in h.vars:
                    h = h.parent
                return T('super', g.func.owner_cls, h.vars[first])
        fv = self.ev(f, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_items(self.ev(a.value, fr), a))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.norm(self.ev(k.value, fr))
                if d.op == 'ref' and self.rd(d).kind == 'dict':
                    for kk, vv in self.rd(d).data:
                        kc = self.val_eq(kk)
                        if kc is None or not isinstance(cval(kc), str):
                            if kc is None and self.pytype(kk) in (str, None):
                                kwargs[kk] = vv          # symbolic keyword
                                continue
                            self.raise_(bi('TypeError'), n)
                        if cval(kc) in kwargs:
                            self.raise_(bi('TypeError'), n)
                        kwargs[cval(kc)] = vv
                else:
                    if d is NONE:
                        self.raise_(bi('TypeError'), n)
                    kwargs['**'] = d
            else:
                if k.arg in kwargs:
                    self.raise_(bi('TypeError'), n)
                kwargs[k.arg] = self.ev(k.value, fr)
        self.node = n
        self.file = fr.module_file
        r = self.call(fv, args, kwargs, n)
        self.file = fr.module_file
        self.node = n
        return r

    def bind_args(self, fd, args, kwargs, node):
        a = fd.node.args
        fr = self.new_frame(fd.module, fd.frame, fd)
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        kwargs = dict(kwargs)
        star = kwargs.pop('**', None)
        vals = fr.vars
        for i, x in enumerate(args):
            if i < len(pos):
                vals[pos[i]] = x
        extra = args[len(pos):]
        if extra and a.vararg is None:
            self.raise_(bi('TypeError'), node)
        if a.vararg is not None:
            vals[a.vararg.arg] = tup(*extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = []
        for k, v in kwargs.items():
            if isinstance(k, str) and k in pos and k not in [x.arg for x in getattr(a, 'posonlyargs', [])]:
                if k in vals:
                    self.raise_(bi('TypeError'), node)
                vals[k] = v
            elif isinstance(k, str) and k in kwonly:
                vals[k] = v
            elif a.kwarg is not None:
                rest.append([C(k) if isinstance(k, str) else k, v])
            else:
                self.raise_(bi('TypeError'), node)
        nd = len(fd.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = fd.defaults[j]
                elif star is not None:
                    vals[p] = T('item', star, C(p))
                else:
                    self.raise_(bi('TypeError'), node)
        for p, d in zip(kwonly, fd.kwdefaults):
            if p not in vals:
                if d is None:
                    self.raise_(bi('TypeError'), node)
                vals[p] = d
        if a.kwarg is not None:
            if star is not None and not rest:
                self.imprecise('unknown keyword dictionary')
                vals[a.kwarg.arg] = T('kwcopy', star)
            else:
                vals[a.kwarg.arg] = self.new_dict(rest)
        return fr

    def freeze_call(self, args, kwargs):
        return (tuple(args), tuple(sorted(((k, v) for k, v in kwargs.items()),
                                          key=lambda kv: kv[0] if isinstance(kv[0], str) else skey(kv[0]))))

    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        f = self.norm(f)
        node = node or self.node
        o = f.op
        if o == 'ext' and f.args[0] in self.stubs:
            f = self.norm(self.stubs[f.args[0]])
            o = f.op
        if self.call_filter is not None:
            r = self.call_filter(self, f, args, kwargs, node)
            if r is not None:
                return r
        if o == 'bound':
            return self.call(f.args[0], [f.args[1]] + list(args), kwargs, node)
        if o == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw, node)
        if o == 'ref':
            c = self.rd(f)
            if c.kind == 'func':
                return self.call_func(f, args, kwargs, node)
            if c.kind == 'class':
                return self.call_class(f, args, kwargs, node)
            if c.kind == 'cmfactory':
                return self.alloc(Cell('cm', None, (c.data, list(args), dict(kwargs))))
            if c.kind == 'obj':
                m = self.class_lookup(c.cls, '__call__')
                if m is not MISSING:
                    return self.call(self.bind(m, f, c.cls), args, kwargs, node)
            if c.kind in ('list', 'dict', 'set', 'property', 'obj', 'module'):
                self.raise_(bi('TypeError'), node)
            return self.opaque_call(f, args, kwargs, node)
        if o == 'ext':
            m = models.MODELS.get(f.args[0])
            if m is not None:
                r = m(self, args, kwargs, node)
                if r is not None:
                    return r
            return self.ext_call(f, args, kwargs, node)
        if o == 'bmeth':
            return models.call_bmeth(self, f.args[0], f.args[1], args, kwargs, node)
        if o == 'ubmeth':
            if args and f.args[1] == '__new__' and it_is_class(self, args[0]):
                cls = self.norm(args[0])
                if f.args[0] is bi('type') or bi('type') in self.mro(cls) and len(args) == 4:
                    return models.type_new(self, cls, args[1], args[2], args[3], node)
                return self.raw_new(cls, list(args[1:]), kwargs, node)
            if args and f.args[0] is bi('type') and f.args[1] == '__call__':
                return self.instantiate(self.norm(args[0]), list(args[1:]), kwargs, node)
            if f.args[0] is bi('dict') and f.args[1] == 'fromkeys':
                return self.new_dict([[k, args[1] if len(args) > 1 else NONE] for k in self.to_items(args[0], node)])
            if f.args[1] in CLASS_METHODS:
                self.imprecise('call of ' + show(f))
            if args:
                return models.call_bmeth(self, args[0], f.args[1], args[1:], kwargs, node, f.args[0])
            return self.ext_call(f, args, kwargs, node)
        if o == 'sbmeth':
            return models.call_sbmeth(self, f.args[0], f.args[1], f.args[2], args, kwargs, node)
        if o == 'mbound':
            return self.opaque_mcall(f.args[0], f.args[1], args, kwargs, node)
        if o == 'attr':
            return self.opaque_mcall(f.args[0], f.args[1], args, kwargs, node)
        if o in ('const', 'tuple'):
            self.raise_(bi('TypeError'), node)
        if o == 'wrapsdeco':
            return self.apply_wraps(f.args[0], self.norm(args[0]))
        if o == 'typeof' or (o == 'sym' and self.is_class(f)):
            return self.call_symclass(f, args, kwargs, node)
        rc = [p for p in self.pos_types(f) if p.op == 'ref']
        if rc:
            m = self.class_lookup(rc[0], '__call__')
            if m is not MISSING:
                return self.call(self.bind(m, f, rc[0]), args, kwargs, node)
        return self.opaque_call(f, args, kwargs, node)

    def apply_wraps(self, orig, new):
        if new.op == 'ref' and self.rd(new).kind == 'func':
            w = self.wr(new)
            for n in ('__name__', '__doc__', '__module__'):
                v = self._get_attr(self.norm(orig), n, None, True)
                if v is not MISSING:
                    w.attrs[n] = v
            w.attrs['__wrapped__'] = orig
        return new

    def call_func(self, f, args, kwargs, node):
        fd = self.rd(f).data
        q = fd.qual
        if fd.module is not None and self.is_opaque(q, fd, args):
            if fd.owner_cls is not None and args:
                return self.opaque_mcall(args[0], fd.name, args[1:], kwargs, node)
            return self.opaque_call(f, args, kwargs, node)
        if fd.is_gen:
            return self.alloc(Cell('gen', bi('generator'), ('func', f, list(args), dict(kwargs))))
        if len(self.stack) > self.MAX_DEPTH or self.stack.count(q) >= self.MAX_REC:
            if self.endless:
                raise EndlessRecursion(q)
            self.imprecise('recursion in ' + q)
            raise PathAbort('recursion bound in ' + q)
        fr = self.bind_args(fd, args, kwargs, node)
        self.prog.visited.add(q)
        self.stack.append(q)
        file, nd = self.file, self.node
        try:
            if isinstance(fd.node, ast.Lambda):
                return self.ev(fd.node.body, fr)
            self.exec_block(fd.node.body, fr)
        except ReturnSig as r:
            return r.value
        finally:
            self.stack.pop()
            self.file, self.node = file, nd
        return NONE

    def is_opaque(self, qual, fd, args):
        if not self.opaque:
            return False
        if qual in self.opaque or fd.name in self.opaque:
            return True
        parts = qual.split('.')
        return '.'.join(parts[-2:]) in self.opaque

    def call_class(self, cls, args, kwargs, node):
        d = self.rd(cls).data
        if d.qual in self.opaque or d.name in self.opaque:
            return self.opaque_call(cls, args, kwargs, node)
        meta = self.metaclass(cls)
        if meta.op == 'ref':
            mc = self.class_lookup(meta, '__call__')
            if mc is not MISSING:
                return self.call(self.bind(mc, cls, meta), args, kwargs, node)
        return self.instantiate(cls, args, kwargs, node)

    def instantiate(self, cls, args, kwargs, node):
        """type.__call__: __new__ then __init__."""
        d = self.rd(cls).data
        nw = self.class_lookup(cls, '__new__')
        if nw is not MISSING:
            nv = self.norm(nw)
            if nv.op == 'ref' and self.rd(nv).kind == 'static':
                nv = self.rd(nv).data
            obj = self.call(nv, [cls] + list(args), kwargs, node)
        else:
            obj = self.raw_new(cls, args, kwargs, node)
        r = self.isinst(obj, cls)
        if r is not False:
            self.run_init(cls, obj, args, kwargs, node)
        return obj

    def raw_new(self, cls, args, kwargs, node):
        for b in self.mro(cls):
            if b.op == 'ref' and self.rd(b).extra and 'fields' in self.rd(b).extra:
                fields = self.rd(b).extra['fields']
                if len(args) > len(fields):
                    self.raise_(bi('TypeError'), node)
                vals = dict(zip(fields, args))
                for k, v in kwargs.items():
                    if k in vals or k not in fields:
                        self.raise_(bi('TypeError'), node)
                    vals[k] = v
                d = self.rd(b).extra.get('defaults')
                if d is not None:
                    d = self.to_items(d)
                    for f, v in zip(fields[len(fields) - len(d):], d):
                        vals.setdefault(f, v)
                if set(vals) != set(fields):
                    self.raise_(bi('TypeError'), node)
                return self.alloc(Cell('obj', cls, None, vals, extra={'fields': fields}))
        for b in self.mro(cls):
            if b.op != 'ext':
                continue
            n = b.args[0]
            if n in ('builtins.list', 'builtins.set', 'builtins.dict'):
                if self.class_lookup(cls, '__init__') is not MISSING:
                    args, kwargs = [], {}               # filled by __init__
                items = self.to_items(args[0], node) if args else []
                if n == 'builtins.list':
                    return self.new_list(items, cls)
                if n == 'builtins.set':
                    return self.new_set(items, cls)
                r = self.new_dict([], cls)
                if args or kwargs:
                    models.dict_meth(self, r, 'update', list(args), dict(kwargs), node)
                return r
        cell = Cell('obj', cls, None, {})
        exc = bi('BaseException')
        if exc in self.mro(cls):
            cell.attrs['args'] = tup(*args)
        return self.alloc(cell)

    def run_init(self, cls, obj, args, kwargs, node):
        init = self.class_lookup(cls, '__init__')
        if init is MISSING:
            if (args or kwargs) and self.class_lookup(cls, '__new__') is MISSING:
                if not any(b.op == 'ext' and b is not bi('object') for b in self.mro(cls)):
                    self.raise_(bi('TypeError'), node)
            return
        if self.init_skip is not None and self.init_skip(self, cls):
            # bind the arguments by name, without running the body
            fd = self.rd(init).data
            fr = self.bind_args(fd, [obj] + list(args), kwargs, node)
            c = self.wr(obj)
            c.extra = {'init': dict(fr.vars)}
            return
        self.call(self.bind(init, obj, cls), args, kwargs, node)

    init_skip = None

    def exc_init_skip(self, cls):
        return False

    def call_symclass(self, f, args, kwargs, node):
        """Call of an unknown class: a new object of it."""
        bases = []
        if f.op == 'typeof':
            x = f.args[0]
            bases = list(self.pos_types(x))
        else:
            bases = list(self.subclass_info(f)[0])
        for b in sorted(bases):
            for k in self.mro(b):
                if k.op == 'ext' and k.args[0] in ('builtins.list', 'builtins.set', 'builtins.dict', 'builtins.tuple'):
                    self.event('new', None, f, args=args, kwargs=sorted(kwargs.items()), node=node)
                    n = k.args[0][9:]
                    items = self.to_items(args[0], node) if args else []
                    if n == 'list':
                        return self.new_list(items, f)
                    if n == 'set':
                        return self.new_set(items, f)
                    if n == 'tuple':
                        t = T('newtuple', f, tuple(items))
                        self.info(t)[2] = f
                        self.mat[t] = items
                        return t
                    r = self.new_dict([], f)
                    if args:
                        models.dict_meth(self, r, 'update', list(args), dict(kwargs), node)
                    return r
        r = self.opaque_call(f, args, kwargs, node)
        if r.op == 'call':
            i = self.info(r)
            for b in bases:
                i[0].add(b)
            i[0].add(f)
        return r

    # -- calls that are not followed
    def opaque_call(self, f, args, kwargs, node):
        pos, kw = self.freeze_call(args, kwargs)
        term = T('call', f, pos, kw)
        return self.finish_opaque(term, f, None, args, kwargs, node)

    def opaque_mcall(self, obj, name, args, kwargs, node):
        if name in models.ARRAY_MUTATORS or name in models.MUTATORS:
            self.mutated(self.norm(obj), name, node)
        pos, kw = self.freeze_call(args, kwargs)
        term = T('mcall', self.norm(obj), name, pos, kw)
        return self.finish_opaque(term, obj, name, args, kwargs, node)

    pure_names = frozenset()

    def finish_opaque(self, term, recv, name, args, kwargs, node):
        self.event('call', name, recv, args=args,
                   kwargs=sorted(kwargs.items(), key=lambda kv: kv[0] if isinstance(kv[0], str) else skey(kv[0])),
                   node=node, raw=(list(args), dict(kwargs)))
        if self.hook is not None:
            r = self.hook(self, term, recv, name, args, kwargs, node)
            if r is not None:
                return r
        if self.raises is not None:
            for cls in self.pick_raise(term, self.raises(self, term)):
                self.raise_opaque(term, cls, node)
        return term

    def ext_call(self, f, args, kwargs, node):
        if f.op == 'ext':
            n = f.args[0]
            top = n.split('.')[0]
            if top in STDLIB and n not in KNOWN_CALLS and n not in EXT_CLASSES and not (
                    top == 'builtins' and n[9:] in models.SAFE_BUILTINS):
                self.imprecise('call of %s' % n)
        pos, kw = self.freeze_call(args, kwargs)
        term = T('call', f, pos, kw)
        self.event('extcall', f.args[0] if f.op == 'ext' else show(f), None, args=args,
                   kwargs=sorted(kwargs.items(), key=str), node=node, raw=(list(args), dict(kwargs)))
        if self.hook is not None:
            r = self.hook(self, term, f, None, args, kwargs, node)
            if r is not None:
                return r
        if f.op == 'ext' and self.is_class(f) and self.subclass(f, bi('BaseException')):
            return self.new_obj(f, {'args': tup(*args)})
        if self.raises is not None:
            for cls in self.pick_raise(term, self.raises(self, term)):
                self.raise_(cls, node)
        if f.op == 'ext' and (f.args[0] in IMPURE or self.is_class(f) and not f.args[0] in RET_PURE):
            n = self.ncalls.get(term, 0)
            self.ncalls[term] = n + 1
            if n:
                term = T('call', f, pos, kw + (('#', C(n)),))
            if self.is_class(f):
                self.info(term)[2] = f
        return term


# standard library calls whose uninterpreted result is good enough
KNOWN_CALLS = {
    'base64.b64encode', 'base64.b64decode', 'base64.standard_b64encode', 'base64.standard_b64decode',
    'datetime.datetime', 'datetime.date', 'datetime.timedelta', 'datetime.datetime.now', 'datetime.datetime.utcnow',
    'datetime.datetime.today', 'datetime.datetime.strptime', 'datetime.datetime.fromisoformat',
    'io.BytesIO', 'io.StringIO', 'json.dumps', 'json.loads', 'math.isnan', 'math.isinf', 'math.isfinite',
    'math.isclose', 'math.fabs', 'math.floor', 'math.ceil', 'math.sqrt', 'random.choice', 'random.randint',
    'random.random', 'random.shuffle', 're.compile', 're.search', 're.match', 're.fullmatch', 're.sub', 're.escape',
    'urllib.parse.urlparse', 'urllib.parse.urlunparse', 'urllib.parse.urlsplit', 'urllib.parse.urlunsplit',
    'urllib.parse.ParseResult', 'urllib.parse.SplitResult', 'uuid.UUID', 'uuid.uuid1', 'uuid.uuid4', 'warnings.warn', 'os.path.exists',
    'time.time', 'io.open', 'types.MappingProxyType', 'collections.OrderedDict', 'hashlib.md5',
}
PLAIN_BASES = {'abc.ABC', 'typing.Generic', 'typing.Protocol'}
CLASS_METHODS = {'from_bytes', 'fromhex', 'maketrans', 'from_number', 'fromkeys'}
EXT_CLASSES = set(EXT_BASES)
STDLIB = set(sys.stdlib_module_names) | {'builtins'}


IMPURE = {'uuid.uuid4', 'random.choice', 'builtins.open', 'io.BytesIO'}
RET_PURE = {'builtins.int', 'builtins.float', 'builtins.str', 'builtins.complex', 'builtins.bool', 'builtins.range'}


def it_is_class(it, t):
    return it.is_class(t) is True and it.norm(t).op == 'ref'


class EFrame(Frame):
    __slots__ = ('module_file', 'comp')

    def __init__(self, *a, **k):
        Frame.__init__(self, *a, **k)
        self.comp = False
