"""Most general clients.

A scenario is a small client program (Python text) that uses the library through
its public interface with unknown inputs.  Client and library are analysed
together by the abstract interpreter; nothing is executed.  The client states
its obligations with must(...); every path partition has to discharge them.
"""
import ast

from .terms import (T, C, NONE, TRUE, FALSE, Term, is_const, cval, ext, bi, tup, show, skey, leaves)
from .interp import (Cell, ModData, AbsRaise, Signal, PathAbort, MISSING)
from . import models
from .execu import Engine


class Violation(Exception):
    def __init__(self, rule, line, detail):
        Exception.__init__(self, rule)
        self.rule = rule
        self.line = line
        self.detail = detail


_PARSED = {}
MACROS = {}


def macro(f):
    MACROS[f.__name__[2:]] = f
    return f


def h_model(name):
    def deco(f):
        models.MODELS['harness.' + name] = f
        HARNESS.append(name)
        return f
    return deco


HARNESS = []


class ClientEngine(Engine):
    """Engine that also interprets a client program."""

    def setup(self, name, src):
        self.sc_name = name
        self.client_mod = None
        self.fn_terms = {}
        self.src = src
        self.obligations = []            # (line, message, discharged)
        self.fns = {}                    # symbolic functions: term -> list of exception classes
        self.sym_names = {}
        self.client_path = 'client:' + name
        self.hook_fns = {}
        self.snaps = {}
        self.raises = type(self).default_raises
        self.must_terms = []
        self.calltrace = []
        self.bad_mark = None             # partition labels in force at a forbidden change

    def default_raises(self, it, term=None):
        return []

    def run_client(self):
        key = (self.sc_name, self.src)
        tree = _PARSED.get(key)
        if tree is None:
            tree = _PARSED[key] = ast.parse(self.src, self.client_path)
        ns = {'__name__': C('client')}
        ref = self.alloc(Cell('module', None, ModData('client', self.client_path, ns, False)))
        self.client_mod = ref
        prog = self.prog
        pkg = prog.modules[prog.package]
        for k, v in prog.store[pkg.args[0]].data.ns.items():
            if not k.startswith('__'):
                ns[k] = v
        ns['properties'] = pkg
        for k in HARNESS:
            ns[k] = ext('harness.' + k)
        ns['np'] = ext('numpy')
        fr = self.new_frame(ref)
        self.exec_block(tree.body, fr)

    # macros are evaluated lazily
    def e_Call(self, n, fr):
        f = n.func
        if isinstance(f, ast.Name) and f.id in MACROS and fr.module is self.client_mod:
            return MACROS[f.id](self, n, fr)
        return Engine.e_Call(self, n, fr)

    def call_func(self, f, args, kwargs, node):
        fd = self.rd(f).data
        if fd.module is not None and fd.module is not self.client_mod:
            self.calltrace.append('%s called at %s' % (fd.qual, self.where(node)))
        return Engine.call_func(self, f, args, kwargs, node)

    def congruent(self, term):
        """An earlier application of the same function to equal arguments."""
        old = self.fn_terms.setdefault(term.args[0], [])
        if term in old:
            return term
        na = [self.norm(a) for a in term.args[1]]
        nk = [(k, self.norm(v)) for k, v in term.args[2]]
        for t in old:
            if len(t.args[1]) == len(na) and len(t.args[2]) == len(nk) and \
                    all(self.norm(x) is y for x, y in zip(t.args[1], na)) and \
                    all(k == k2 and self.norm(x) is y for (k, x), (k2, y) in zip(t.args[2], nk)):
                return t
        old.append(term)
        return term

    def unify(self, x, y):
        Engine.unify(self, x, y)
        for ts in self.fn_terms.values():
            if len(ts) > 1:
                seen = set()
                for t in ts:
                    k = (tuple(self.norm(a) for a in t.args[1]),
                         tuple((k, self.norm(v)) for k, v in t.args[2]))
                    if k in seen:
                        raise PathAbort('arguments of two unknown calls coincide')
                    seen.add(k)

    def finish_opaque(self, term, recv, name, args, kwargs, node):
        if name is None and recv in self.fns:
            exs = self.fns[recv]
            term = self.congruent(term)
            self.event('call', None, recv, args=args, kwargs=sorted(kwargs.items()), node=node,
                       raw=(list(args), dict(kwargs)))
            for cls in self.pick_raise(term, exs):
                msg = C('from ' + show(recv))
                if cls.op == 'ref' and self.is_class(cls):
                    exc = self.call_class(cls, [msg], {}, node)
                else:
                    exc = self.new_obj(cls, {'args': tup(msg)})
                self.event('raised', None, exc, node=node)
                raise AbsRaise(exc, node, self.where(node))
            return self.norm(term)
        return Engine.finish_opaque(self, term, recv, name, args, kwargs, node)


def _spec(it, node, fr):
    it.in_spec += 1
    try:
        return it.ev(node, fr)
    finally:
        it.in_spec -= 1


def _spec_truth(it, node, fr):
    it.in_spec += 1
    try:
        v = it.ev(node, fr)
        return v, it.truth(v)
    finally:
        it.in_spec -= 1


@macro
def m_must(it, n, fr):
    msg = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else 'obligation'
    mark = len(it.labels)
    it.bad_mark = None
    v, ok = _spec_truth(it, n.args[0], fr)
    if ok:
        it.calltrace = []
    it.must_terms.append(v)
    it.obligations.append((n.lineno, msg, ok))
    if not ok:
        raise Violation(msg, n.lineno, {'obligation': ast.unparse(n.args[0]), 'mark': mark,
                                        'got': describe_parts(it, n.args[0], fr)})
    return NONE


def describe_parts(it, node, fr):
    """Values of the operands of a failed obligation."""
    out = {}
    parts = []
    if isinstance(node, ast.Compare):
        parts = [node.left] + list(node.comparators)
    elif isinstance(node, ast.BoolOp):
        for v in node.values:
            parts.extend([v.left] + list(v.comparators) if isinstance(v, ast.Compare) else [v])
    elif isinstance(node, ast.Call):
        parts = list(node.args)
    for p in parts[:6]:
        try:
            out[ast.unparse(p)] = show(it.freeze(it.ev(p, fr)))[:200]
        except (AbsRaise, Signal, PathAbort, Violation):
            pass
    return out


@macro
def m_assume(it, n, fr):
    it.in_spec += 1
    try:
        e = n.args[0]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            # the other branch is no path: take this one without a partition
            a, b = it.norm(it.ev(e.left, fr)), it.norm(it.ev(e.comparators[0], fr))
            want = isinstance(e.ops[0], ast.Is)
            k = it.pair('is', a, b)
            if it.decide(k) is None:
                it.labels.append((k, 0 if want else 1, True))
                it.learn(k, want)
            ok = it.decide(k) is want
        else:
            ok = it.truth(it.ev(e, fr))
    finally:
        it.in_spec -= 1
    if not ok:
        raise PathAbort('assumption', infeasible=True)
    return NONE


@macro
def m_spec(it, n, fr):
    return _spec(it, n.args[0], fr)


@macro
def m_outcome(it, n, fr):
    """Outcome of an expression: .ok, .value, .error"""
    try:
        v = it.ev(n.args[0], fr)
    except AbsRaise as e:
        it.event('caught', None, e.exc, node=n)
        return it.new_obj(bi('object'), {'ok': FALSE, 'value': NONE, 'error': e.exc,
                                         'where': C(str(e.where))})
    return it.new_obj(bi('object'), {'ok': TRUE, 'value': v, 'error': NONE, 'where': NONE})


def _cls_args(it, args):
    return [it.norm(a) for a in args]


@h_model('sym')
def h_sym(it, args, kwargs, node):
    """Unknown value; with a class: an unknown value of exactly that class."""
    t = T('sym', cval(it.norm(args[0])))
    if len(args) > 1:
        c = it.norm(args[1])
        it.assume_type(t, c, exact=True)
    return t


@h_model('sub')
def h_sub(it, args, kwargs, node):
    """Unknown value that is an instance of a class (or of a subclass)."""
    t = T('sym', cval(it.norm(args[0])))
    it.assume_type(t, it.norm(args[1]))
    it.facts[T('isinst', t, it.norm(args[1]))] = True
    return t


@h_model('fn')
def h_fn(it, args, kwargs, node):
    """Unknown function of its arguments, which may raise the given exceptions."""
    t = T('sym', cval(it.norm(args[0])))
    it.assume_type(t, bi('function'), exact=True)
    it.fns[t] = [it.norm(a) for a in args[1:]]
    return t


@h_model('pick')
def h_pick(it, args, kwargs, node):
    c = it.choose(len(args), T('pick', C(getattr(node, 'lineno', 0))))
    return it.norm(args[c])


@h_model('caller')
def h_caller(it, args, kwargs, node):
    """Mark an object graph as belonging to the caller."""
    v = it.norm(args[0])
    mark_owner(it, v, set())
    return v


def mark_owner(it, v, seen):
    v = it.norm(v)
    if v in seen:
        return
    seen.add(v)
    if v.op == 'tuple':
        for x in v.args:
            mark_owner(it, x, seen)
    if v.op == 'ref':
        c = it.rd(v)
        if c.kind in ('list', 'set', 'dict', 'iter'):
            it.wr(v).owner = 'caller'
            if c.kind == 'dict':
                for k, x in c.data:
                    mark_owner(it, k, seen)
                    mark_owner(it, x, seen)
            else:
                for x in c.data:
                    mark_owner(it, x, seen)


@h_model('now')
def h_now(it, args, kwargs, node):
    """A point in time, for untouched(..., since=)."""
    return C(len(it.mutations))


@h_model('untouched')
def h_untouched(it, args, kwargs, node):
    """No mutation was applied to anything marked as the caller's (or to the
    given objects)."""
    bad = []
    want = None
    since = 0
    if 'since' in kwargs:
        # untouched(objects..., since=now())
        since = cval(it.norm(kwargs['since']))
    if args:
        want = set(it.norm(a) for a in args)
    for ref, what, where, mark in it.mutations[since:]:
        if want is not None and ref not in want:
            continue
        if want is None and ref.op == 'ref' and it.rd(ref).owner != 'caller':
            continue
        if want is None and ref.op != 'ref' and not any(l.op == 'sym' for l in leaves(ref)):
            continue
        bad.append((show(ref), what, where))
        if it.bad_mark is None:
            it.bad_mark = mark
    if bad:
        it.bad_mutation = bad
    return C(not bad)


@h_model('globals_touched')
def h_globals(it, args, kwargs, node):
    """Shared objects (made at import) that were changed in place; those given
    (registries) may change."""
    free = set(it.norm(a) for a in args)
    bad = []
    for r, what, where, mark in it.mutations:
        if r.op == 'ref' and it.rd(r).owner == 'global' and r not in free:
            bad.append((show(r), what, where))
            if it.bad_mark is None:
                it.bad_mark = mark
    return it.new_list([tup(C(a), C(b), C(c)) for a, b, c in bad])


@h_model('count')
def h_count(it, args, kwargs, node):
    kind = cval(it.norm(args[0]))
    name = cval(it.norm(args[1])) if len(args) > 1 else None
    n = 0
    for e in it.events:
        if e.kind == kind and (name is None or e.name == name):
            n += 1
    return C(n)


@h_model('warnings_issued')
def h_warns(it, args, kwargs, node):
    """Deprecation or other warnings issued so far: list of categories."""
    out = []
    for e in it.events:
        if e.kind == 'warn':
            cat = e.kwargs and dict(e.kwargs).get('category') or (e.args[1] if len(e.args) > 1 else bi('UserWarning'))
            out.append(cat)
    return it.new_list(out)


@h_model('calls_to')
def h_calls(it, args, kwargs, node):
    """Argument tuples of the calls made to a symbolic function so far."""
    f = it.norm(args[0])
    out = []
    for e in it.events:
        if e.kind == 'call' and e.target is f and e.name is None or \
                e.kind == 'extcall' and f.op == 'ext' and e.name == f.args[0]:
            a, k = e.raw
            out.append(tup(tup(*a), it.new_dict([[C(x), y] for x, y in sorted(k.items())])))
    return it.new_list(out)


@h_model('mcalls')
def h_mcalls(it, args, kwargs, node):
    """(args, kwargs) of the method calls `name` made on an unknown object."""
    o = it.norm(args[0])
    name = cval(it.norm(args[1]))
    out = []
    for e in it.events:
        if e.kind == 'call' and e.target is o and e.name == name:
            a, k = e.raw
            out.append(tup(tup(*a), it.new_dict([[C(x), y] for x, y in sorted(k.items())])))
    return it.new_list(out)


@h_model('trace_of')
def h_trace(it, args, kwargs, node):
    """Names of the method calls made on an unknown object, in order."""
    o = it.norm(args[0])
    out = [C(e.name) for e in it.events if e.kind == 'call' and e.target is o and e.name is not None]
    return it.new_list(out)


@h_model('same')
def h_same(it, args, kwargs, node):
    """Structural identity of two values (provenance), without partitioning."""
    a, b = it.freeze(args[0]), it.freeze(args[1])
    return C(a is b)


@h_model('is_kind')
def h_is_kind(it, args, kwargs, node):
    v = it.norm(args[0])
    ty = it.typeof(v)
    return C(ty is it.norm(args[1]))


@h_model('show')
def h_show(it, args, kwargs, node):
    print('    show:', ', '.join(show(it.freeze(a)) for a in args))
    return NONE


@h_model('stop')
def h_stop(it, args, kwargs, node):
    raise PathAbort('stop', infeasible=True)


@h_model('exc_of')
def h_exc_of(it, args, kwargs, node):
    return it.typeof(it.norm(args[0])) or NONE


@h_model('attr_of')
def h_attr_of(it, args, kwargs, node):
    """Opaque attribute of an unknown object, as the library would read it."""
    return T('attr', it.norm(args[0]), cval(it.norm(args[1])))


@h_model('mentions')
def h_mentions(it, args, kwargs, node):
    """Does a value (e.g. a message) derive from another one?"""
    from .terms import contains
    a, b = it.freeze(args[0]), it.freeze(args[1])
    if a.op == 'const' and b.op == 'const':
        return C(str(cval(b)) in str(cval(a)))
    if b.op == 'const' and isinstance(cval(b), str):
        return C(contains(a, b) or cval(b) in show(a))
    return C(contains(a, b))


@h_model('atom_true')
def h_atom(it, args, kwargs, node):
    return C(it.truth(it.norm(args[0])))


@h_model('ext_instance')
def h_ext_instance(it, args, kwargs, node):
    """Unknown instance of a library class given by dotted name."""
    t = T('sym', cval(it.norm(args[0])))
    it.assume_type(t, ext(cval(it.norm(args[1]))), exact=True)
    return t


@h_model('ext_name')
def h_ext_name(it, args, kwargs, node):
    return ext(cval(it.norm(args[0])))


@h_model('stub')
def h_stub(it, args, kwargs, node):
    """Let a client function or class stand in for a library function or class."""
    it.stubs[cval(it.norm(args[0]))] = it.norm(args[1])
    return NONE


@h_model('nothing')
def h_nothing(it, args, kwargs, node):
    """Is the value None (as opposed to a value of unknown kind)?"""
    v = it.norm(args[0])
    return C(v is NONE or it.decide(it.pair('is', v, NONE)) is True)
