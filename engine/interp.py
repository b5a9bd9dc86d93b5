"""Path-partitioned abstract interpretation of the repository's source.

Nothing of the repository is imported or executed.  The analyser walks the
syntax trees with abstract values (provenance terms, see terms.py), partitions
the paths of a scenario by the predicates the code tests, and bounds unknown
containers to a few distinguished elements.  Calls into the repository are
followed (inlined), so facts do not depend on how code is split over helpers.

One `Interp` analyses one path; `explore.py` enumerates the partitions by
replaying the scenario with every sequence of branch decisions.
"""
import ast
import builtins as _pybuiltins

from .terms import (T, C, NONE, TRUE, FALSE, Term, is_const, cval, ext, bi,
                    tup, show, leaves, skey)


class AbsRaise(Exception):
    """An exception raised by the analysed code."""

    def __init__(self, exc, node=None, where=None):
        Exception.__init__(self)
        self.exc = exc
        self.node = node
        self.where = where


class Signal(Exception):
    pass


class ReturnSig(Signal):
    def __init__(self, value):
        self.value = value


class BreakSig(Signal):
    pass


class ContinueSig(Signal):
    pass


class StopEach(Signal):
    """Abandon an iteration early (next(), any(), ...)."""

    def __init__(self, token):
        self.token = token


class PathAbort(BaseException):
    """This path is infeasible or beyond the bounds."""

    def __init__(self, why, infeasible=False):
        BaseException.__init__(self, why)
        self.why = why
        self.infeasible = infeasible


class Cell(object):
    """An object on the abstract heap."""
    __slots__ = ('kind', 'cls', 'data', 'attrs', 'owner', 'extra')

    def __init__(self, kind, cls=None, data=None, attrs=None, owner=None, extra=None):
        self.kind = kind
        self.cls = cls
        self.data = data
        self.attrs = attrs if attrs is not None else {}
        self.owner = owner
        self.extra = extra

    def clone(self):
        d = self.data
        if self.kind == 'dict':
            d = [list(e) for e in d]
        elif self.kind in ('list', 'set'):
            d = list(d)
        elif self.kind in ('class', 'module'):
            d = d.clone()
        return Cell(self.kind, self.cls, d, dict(self.attrs), self.owner, self.extra)


class ClassData(object):
    def __init__(self, name, qual, bases, ns, meta, module):
        self.name = name
        self.qual = qual
        self.bases = bases
        self.ns = ns
        self.meta = meta
        self.module = module

    def clone(self):
        return ClassData(self.name, self.qual, self.bases, dict(self.ns), self.meta, self.module)


class ModData(object):
    def __init__(self, name, path, ns, is_pkg):
        self.name = name
        self.path = path
        self.ns = ns
        self.is_pkg = is_pkg

    def clone(self):
        return ModData(self.name, self.path, dict(self.ns), self.is_pkg)


class FuncData(object):
    def __init__(self, node, name, qual, module, frame, defaults, kwdefaults, owner_cls=None):
        self.node = node
        self.name = name
        self.qual = qual
        self.module = module
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner_cls = owner_cls
        self.is_gen = _is_gen(node)


_GEN_CACHE = {}


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    r = _GEN_CACHE.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _GEN_CACHE[id(node)] = (r, node)
        return r
    return r[0] if isinstance(r, tuple) else r


class Frame(object):
    __slots__ = ('vars', 'parent', 'module', 'func', 'is_class', 'globals', 'nonlocals',
                 'yield_hook', 'exc', 'self_cls')

    def __init__(self, module, parent=None, func=None, is_class=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.is_class = is_class
        self.globals = ()
        self.nonlocals = ()
        self.yield_hook = None
        self.exc = None
        self.self_cls = None


class Event(object):
    __slots__ = ('kind', 'name', 'target', 'args', 'kwargs', 'node', 'where', 'value', 'idx', 'raw')

    def __init__(self, kind, name=None, target=None, args=(), kwargs=(), node=None,
                 where=None, value=None, raw=None):
        self.kind = kind
        self.name = name
        self.target = target
        self.args = args
        self.kwargs = kwargs
        self.node = node
        self.where = where
        self.value = value
        self.raw = raw
        self.idx = None

    def __repr__(self):
        return '%s %s%s(%s)%s' % (
            self.kind, show(self.target) + '.' if self.target is not None else '',
            self.name, ', '.join([show(a) for a in self.args] +
                                 ['%s=%s' % (k, show(v)) for k, v in self.kwargs]),
            ' = ' + show(self.value) if self.value is not None else '')


SOLID = {'int', 'float', 'complex', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict',
         'set', 'frozenset', 'NoneType', 'type', 'BaseException', 'function', 'range',
         'module', 'property', 'staticmethod', 'classmethod', 'generator', 'iterator', 'bytes'}

# classes of other libraries: bases
EXT_BASES = {
    'collections.OrderedDict': ['builtins.dict'],
    'collections.defaultdict': ['builtins.dict'],
    'collections.Counter': ['builtins.dict'],
    'user.Error': ['builtins.Exception'],
    'user.SubValidationError': ['properties.utils.ValidationError'],
    'datetime.datetime': ['datetime.date'],
    'datetime.date': [],
    'numpy.ndarray': [], 'numpy.bool_': [], 'uuid.UUID': [], 'png.Image': [],
    'png.FormatError': ['png.Error'], 'png.Error': ['builtins.Exception'],
    'png.ChunkError': ['png.FormatError'],
    're.error': ['builtins.Exception'],
    'binascii.Error': ['builtins.ValueError'],
    'json.JSONDecodeError': ['builtins.ValueError'],
    'traitlets.HasTraits': [],
    'io.BytesIO': [],
    'vectormath.Vector3': ['numpy.ndarray'], 'vectormath.Vector2': ['numpy.ndarray'],
    'vectormath.Vector3Array': ['numpy.ndarray'], 'vectormath.Vector2Array': ['numpy.ndarray'],
    'collections.abc.Iterable': [], 'collections.abc.Mapping': [],
    'contextlib.GeneratorContextManager': [],
}

MISSING = object()
VIEW = bi('dict_keys')
NOARG = object()


ONE_METHOD = {'Iterable': '__iter__', 'Sized': '__len__', 'Container': '__contains__', 'Hashable': '__hash__',
              'Callable': '__call__', 'Iterator': '__next__', 'Reversible': '__reversed__'}
_ABCS = {}


def is_abc(name):
    """The abstract base class of that name (an object of this Python), or None."""
    if name not in _ABCS:
        import collections.abc
        import numbers
        mod, _, n = name.rpartition('.')
        py = None
        if mod in ('collections.abc', 'collections', 'typing'):
            py = getattr(collections.abc, n, None)
        elif mod == 'numbers':
            py = getattr(numbers, n, None)
        _ABCS[name] = py if isinstance(py, type) else None
    return _ABCS[name]


class Interp(object):
    """Analysis of one path of one scenario."""

    K = 2                       # elements of an unknown container

    def __init__(self, prog, script=(), cfg=None):
        self.prog = prog
        self.script = script            # branch decisions to follow
        self.trail = []                 # (choice, arity) actually taken
        self.labels = []
        self.store = {}
        self.naddr = prog.naddr
        self.facts = {}
        self.spec_facts = {}            # facts decided while evaluating a specification
        self.in_spec = 0
        self.rep = {}                   # term -> representative it is known identical to
        self.tinfo = {}                 # term -> [pos set, neg set, exact]
        self.sattrs = {}
        self.sitems = {}
        self.bounds = {}
        self.mat = {}
        self.outcome = {}
        self.ncalls = {}
        self.events = []
        self.imprecise_why = []
        self.depth = 0
        self.stack = []                 # qualified names being inlined
        self.cfg = cfg
        self.opaque = set()
        self.hook = None                # hook(it, callterm, callee, args, kwargs, node)
        self.raises = None              # raises(it, callterm) -> [classes]
        self.call_filter = None
        self.stubs = {}                 # names of library functions the client stands in for -> stand-in
        self.steps = 0
        self.max_steps = 60000
        self.node = None
        self.file = None
        self.checks = []
        self.notes = []
        self.last_store = None
        self.mutations = []
        self.dynamic_props = True

    # ------------------------------------------------------------- partitions
    def choose(self, n, label=''):
        if n <= 1:
            return 0
        i = len(self.trail)
        c = self.script[i] if i < len(self.script) else 0
        self.trail.append((c, n))
        self.labels.append((label, c, self.in_spec))
        return c

    def imprecise(self, why):
        self.imprecise_why.append('%s [%s]' % (why, self.where()))

    def where(self, node=None):
        node = node or self.node
        return '%s:%s' % (self.file, getattr(node, 'lineno', '?'))

    # ------------------------------------------------------------------ heap
    def alloc(self, cell):
        a = self.naddr
        self.naddr += 1
        self.store[a] = cell
        return T('ref', a)

    def rd(self, ref):
        a = ref.args[0]
        c = self.store.get(a)
        if c is None:
            c = self.prog.store[a]
        return c

    def wr(self, ref):
        a = ref.args[0]
        c = self.store.get(a)
        if c is None:
            c = self.prog.store[a].clone()
            c.owner = c.owner or 'global'
            self.store[a] = c
        return c

    def kind(self, t):
        return self.rd(t).kind if t.op == 'ref' else None

    def new_list(self, items, cls=None, owner=None):
        return self.alloc(Cell('list', cls or bi('list'), list(items), owner=owner))

    def new_set(self, items, cls=None, owner=None):
        r = self.alloc(Cell('set', cls or bi('set'), [], owner=owner))
        for i in items:
            self.set_add(r, i)
        return r

    def new_dict(self, entries, cls=None, owner=None):
        return self.alloc(Cell('dict', cls or bi('dict'), [list(e) for e in entries], owner=owner))

    def new_obj(self, cls, attrs=None, owner=None):
        return self.alloc(Cell('obj', cls, None, dict(attrs or {}), owner=owner))

    def norm(self, t):
        seen = 0
        while t in self.rep and seen < 50:
            t = self.rep[t]
            seen += 1
        return t

    # ---------------------------------------------------------------- classes
    def cls_of(self, qual):
        """Class term of a repo class by qualified name (or ext)."""
        return self.prog.classes.get(qual) or ext(qual)

    def cname(self, cls):
        cls = self.norm(cls)
        if cls.op == 'ref':
            c = self.rd(cls)
            if c.kind == 'class':
                return c.data.qual
            return 'ref%s' % cls.args[0]
        if cls.op == 'ext':
            return cls.args[0]
        return show(cls)

    def is_class(self, t):
        """True / False / None."""
        t = self.norm(t)
        if t.op == 'ref':
            return self.rd(t).kind == 'class'
        if t.op == 'ext':
            n = t.args[0]
            if n.startswith('builtins.'):
                return isinstance(getattr(_pybuiltins, n[9:], None), type) or n[9:] in ('NoneType', 'function', 'module', 'generator', 'iterator', 'dict_keys', 'dict_values')
            if n in EXT_BASES:
                return True
            last = n.split('.')[-1]
            if n in EXT_FUNCTIONS:
                return False
            return True if last[:1].isupper() else None
        if t.op in ('const', 'tuple'):
            return False
        if t.op == 'typeof':
            return True
        info = self.tinfo.get(t)
        if info and bi('type') in info[0]:
            return True
        if info and info[0]:
            return False
        return None

    def mro(self, cls):
        cls = self.norm(cls)
        key = cls
        cache = self.prog.mro_cache
        if key in cache and (cls.op != 'ref' or cls.args[0] < self.prog.naddr):
            return cache[key]
        local = self.__dict__.setdefault('_mro', {})
        if key in local:
            return local[key]
        if cls.op == 'ref':
            d = self.rd(cls).data
            seqs = [list(self.mro(b)) for b in d.bases] + [list(d.bases)]
            out = [cls]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    cand = s[0]
                    if not any(cand in o[1:] for o in seqs):
                        break
                else:
                    out.extend(x for s in seqs for x in s if x not in out)
                    break
                out.append(cand)
                seqs = [[x for x in s if x is not cand] for s in seqs]
            if out[-1] is not bi('object'):
                out = [x for x in out if x is not bi('object')] + [bi('object')]
        elif cls.op == 'ext':
            n = cls.args[0]
            pc = getattr(_pybuiltins, n[9:], None) if n.startswith('builtins.') else None
            if isinstance(pc, type):
                out = [bi(c.__name__) for c in pc.__mro__]
            else:
                out = [cls]
                for b in EXT_BASES.get(n, []):
                    for x in self.mro(self.cls_of(b)):
                        if x not in out:
                            out.append(x)
                if bi('object') in out:
                    out.remove(bi('object'))
                out.append(bi('object'))
        else:
            info = self.tinfo.get(cls)
            out = [cls]
            for b in sorted(self.subclass_info(cls)[0]):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            if bi('object') in out:
                out.remove(bi('object'))
            out.append(bi('object'))
            return out
        if cls.op != 'ref' or cls.args[0] < self.prog.naddr:
            cache[key] = out
        else:
            local[key] = out
        return out

    def abc_subclass(self, a, name):
        """The abstract base classes of the standard library, decided for builtins."""
        if a.op not in ('ref', 'ext'):
            return None
        py = is_abc(name)
        for c in self.mro(a):
            if c is bi('object'):
                continue
            if c is VIEW:
                return py.__name__ in ('Iterable', 'Sized', 'Container', 'Collection', 'Set', 'KeysView', 'MappingView')
            t = getattr(_pybuiltins, c.args[0][9:], None) if c.op == 'ext' and c.args[0].startswith('builtins.') else None
            if c is bi('NoneType'):
                t = type(None)
            if isinstance(t, type):
                return issubclass(t, py)
            if c.op == 'ext':
                if py.__module__ == 'numbers' and c.args[0] in NDARRAYS:
                    return False
                return None
            if c.op == 'ref' and ONE_METHOD.get(py.__name__) in self.rd(c).data.ns:
                return True
        if a.op == 'ref' and all(c.op == 'ref' or c is bi('object') for c in self.mro(a)):
            return False
        return None

    def subclass_info(self, cls):
        return self.tinfo.setdefault(('sub', cls), [set(), set(), None])

    def subclass(self, a, b):
        """Is class a a subclass of class b?  True/False/None."""
        a, b = self.norm(a), self.norm(b)
        if a is b or b is bi('object'):
            return True
        if b.op == 'ext' and b.args[0].split('.')[0] in ('collections', 'numbers', 'typing', 'io') and is_abc(b.args[0]):
            return self.abc_subclass(a, b.args[0])
        if a.op in ('ref', 'ext'):
            m = self.mro(a)
            if b in m:
                return True
            if b.op in ('ref', 'ext'):
                if a.op == 'ext' and a.args[0] not in EXT_BASES and not a.args[0].startswith('builtins.'):
                    if b.op == 'ref' or b.args[0].startswith('builtins.'):
                        return False
                    return None
                return False
            return None
        pos, neg, _ = self.subclass_info(a)
        if a.op == 'typeof':
            # the class of a value is a subclass of whatever the value is an instance of
            i = self.tinfo.get(self.norm(a.args[0]))
            if i:
                pos, neg = pos | i[0], neg | i[1]
        for p in pos:
            if self.subclass(p, b) is True:
                return True
            if self.disjoint(p, b):
                return False
        for n in neg:
            if self.subclass(b, n) is True:
                return False
        return None

    def solids(self, cls):
        if cls.op not in ('ref', 'ext'):
            return set()
        out = set()
        for c in self.mro(cls):
            if c.op == 'ext':
                n = c.args[0]
                if n.startswith('builtins.'):
                    if n[9:] in SOLID:
                        out.add(n)
                        break
                elif n in EXT_BASES:
                    out.add(n)
        return out

    def is_repo_class(self, cls):
        return cls.op == 'ref'

    def disjoint(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y.op == 'ext' and is_abc(y.args[0]):
                return self.subclass(x, y) is False if x.op == 'ext' and x.args[0].startswith('builtins.') else False
        return self._disjoint(a, b)

    def _disjoint(self, a, b):
        """No object can be an instance of both (repo classes are assumed not
        to be mixed with builtin containers or scalars)."""
        if self.subclass_known(a, b) or self.subclass_known(b, a):
            return False
        sa, sb = self.solids(a), self.solids(b)
        if sa and sb:
            if a is bi('bool') or b is bi('bool'):
                pass
            for x in sa:
                for y in sb:
                    if x == y:
                        return False
            return not any(self.subclass_known(ext(x), ext(y)) or self.subclass_known(ext(y), ext(x))
                           for x in sa for y in sb)
        if (sa and b.op == 'ref' and not sb) or (sb and a.op == 'ref' and not sa):
            return True
        return False

    def subclass_known(self, a, b):
        if a.op in ('ref', 'ext') and b.op in ('ref', 'ext'):
            return a is b or b is bi('object') or b in self.mro(a)
        return False

    def info(self, t):
        i = self.tinfo.get(t)
        if i is None:
            i = self.tinfo[t] = [set(), set(), None]
        return i

    def assume_type(self, t, cls, exact=False):
        i = self.info(t)
        i[0].add(cls)
        if exact:
            i[2] = cls
        return t

    def typeof(self, t):
        """Exact class of a value, or None."""
        t = self.norm(t)
        if t.op == 'const':
            return bi(type(cval(t)).__name__) if cval(t) is not None else bi('NoneType')
        if t.op == 'tuple':
            return bi('tuple')
        if t.op == 'ref':
            c = self.rd(t)
            if c.kind == 'class':
                return self.metaclass(t)
            if c.kind == 'func':
                return bi('function')
            if c.kind == 'property':
                return bi('property')
            if c.kind == 'module':
                return bi('module')
            if c.kind == 'static':
                return bi('staticmethod')
            if c.kind == 'classm':
                return bi('classmethod')
            if c.kind in ('cm', 'cmfactory'):
                return {'cm': ext('contextlib.GeneratorContextManager'), 'cmfactory': bi('function')}[c.kind]
            return c.cls
        if t.op == 'ext':
            if self.is_class(t):
                return bi('type')
            return None
        i = self.tinfo.get(t)
        if i and i[2] is not None:
            return i[2]
        if t.op in ('is', 'eq', 'lt', 'in', 'not', 'isinst', 'hasattr', 'truthy', 'callable', 'subcls'):
            return bi('bool')
        if t.op in ('str', 'fstr'):
            return bi('str')
        if t.op == 'len':
            return bi('int')
        if t.op == 'call' and t.args[0].op == 'ext':
            n = t.args[0].args[0]
            r = RET.get(n)
            if r:
                return ext(r)
            if n.startswith('vectormath.') and n in EXT_BASES:
                return t.args[0]
        if t.op == 'arrcmp':
            return ext('numpy.ndarray')
        if self.raises is not None and t.op == 'op' and any(self.arrayish(x) for x in t.args[1:]):
            return ext('numpy.ndarray')
        if t.op == 'call' and t.args[0] is bi('abs') and t.args[1] and self.arrayish(t.args[1][0]):
            return ext('numpy.ndarray')
        if t.op == 'call' and t.args[0] is ext('numpy.isnan') and t.args[1] and (
                self.container_items(t.args[1][0]) is not None or self.arrayish(t.args[1][0])):
            return ext('numpy.ndarray')
        if t.op == 'mcall' and t.args[1] in ('all', 'any') and self.arrayish(t.args[0]):
            return bi('bool')
        if t.op == 'mcall' and t.args[1] == 'copy':
            ty = self.typeof(t.args[0])
            if ty is not None and ty.op == 'ext' and ty.args[0] in NDARRAYS:
                return ty
        if t.op == 'mcall':
            owner = self.pytype(t.args[0])
            if owner is str and t.args[1] in STR_RET:
                return bi(STR_RET[t.args[1]])
        return None

    def arrayish(self, t):
        """A value known to be an array."""
        return t.op not in ('const', 'ref', 'tuple', 'ext') and \
            self.isinst(t, ext('numpy.ndarray')) is True

    def array_op(self, name, a, b, node=None):
        """A comparison of arrays is an array; arrays of shapes that do not match are refused."""
        if self.raises is None or not (self.arrayish(a) or self.arrayish(b)):
            return None
        t = T('arrcmp', name, a, b)
        for cls in self.pick_raise(t, self.raises(self, t)):
            self.raise_(cls, node)
        return t

    def pos_types(self, t):
        ty = self.typeof(t)
        out = set()
        if ty is not None:
            out.add(ty)
        i = self.tinfo.get(t)
        if i:
            out |= i[0]
        return out

    def pytype(self, t):
        """Python builtin type a value is known to be an instance of (or None)."""
        for p in self.pos_types(self.norm(t)):
            if p.op in ('ref', 'ext'):
                for c in self.mro(p):
                    if c.op == 'ext' and c.args[0].startswith('builtins.') and c is not bi('object'):
                        n = c.args[0][9:]
                        if n == 'NoneType':
                            return type(None)
                        pt = getattr(_pybuiltins, n, None)
                        if isinstance(pt, type):
                            return pt
        return None

    def metaclass(self, cls):
        for c in self.mro(cls):
            if c.op == 'ref':
                d = self.rd(c).data
                if d.meta is not None:
                    return d.meta
        return bi('type')

    def isinst(self, t, cls):
        """Decide isinstance(t, cls): True/False/None."""
        t, cls = self.norm(t), self.norm(cls)
        if cls is bi('object'):
            return True
        if cls is bi('type') and t.op == 'ext' and self.is_class(t) is False:
            return False
        ty = self.typeof(t)
        if ty is not None and ty.op in ('ref', 'ext'):
            r = self.subclass(ty, cls)
            if r is not None:
                return r
        elif ty is not None:
            r = self.subclass(ty, cls)
            if r is not None:
                return r
        if t.op == 'ref' or t.op == 'tuple' or t.op == 'const':
            if ty is None:
                return None
            return self.subclass(ty, cls)
        if t.op == 'bound' or t.op == 'bmeth':
            return False
        i = self.tinfo.get(t)
        pos = self.pos_types(t)
        for p in pos:
            if self.subclass(p, cls) is True:
                return True
            if p.op in ('ref', 'ext') and cls.op in ('ref', 'ext') and self.disjoint(p, cls):
                return False
        if i:
            for n in i[1]:
                if self.subclass(cls, n) is True:
                    return False
        if cls is bi('NoneType'):
            f = self.facts.get(T('is', t, NONE))
            if f is not None:
                return f
        return self.facts.get(T('isinst', t, cls))

    # ------------------------------------------------------------ predicates
    def atom(self, a):
        """Truth of an atomic predicate, partitioning on it when undecided."""
        d = self.decide(a)
        if d is not None:
            return d
        if self.hook_atom is not None:
            r = self.hook_atom(self, a)
            if r is not None:
                self.learn(a, r)
                return r
        c = self.choose(2, a)
        val = (c == 0)
        self.learn(a, val)
        return val

    hook_atom = None

    def learn(self, a, val):
        self.facts[a] = val
        if self.in_spec:
            self.spec_facts[a] = val
        o = a.op
        if o == 'isinst':
            t, cls = a.args
            i = self.info(t)
            if val:
                i[0].add(cls)
            else:
                i[1].add(cls)
        elif o == 'subcls':
            i = self.subclass_info(a.args[0])
            (i[0] if val else i[1]).add(a.args[1])
        elif o == 'is' and val:
            x, y = a.args
            self.unify(x, y)
        elif o == 'eq' and val:
            x, y = a.args
            if x.op == 'const' and cval(x) is not None and not isinstance(cval(x), float):
                self.eqs.setdefault(y, x)
            elif y.op == 'const' and cval(y) is not None and not isinstance(cval(y), float):
                self.eqs.setdefault(x, y)
        elif o == 'truthy':
            x = a.args[0]
            if not val and self.pytype(x) is str:
                self.eqs.setdefault(x, C(''))
            if not val and self.pytype(x) is bool:
                self.unify(x, FALSE)
            if val and self.pytype(x) is bool:
                self.unify(x, TRUE)
        elif o == 'lt':
            x, y = a.args
            if y.op == 'const':
                lo, hi = self.bounds.setdefault(x, [None, None])
                self.bounds[x] = [lo, (cval(y), True)] if val else [(cval(y), False), hi]
            elif x.op == 'const':
                lo, hi = self.bounds.setdefault(y, [None, None])
                self.bounds[y] = [(cval(x), True), hi] if val else [lo, (cval(x), False)]

    @property
    def eqs(self):
        e = self.__dict__.get('_eqs')
        if e is None:
            e = self._eqs = {}
        return e

    def unify(self, x, y):
        rank = {'const': 0, 'ref': 1, 'ext': 1, 'tuple': 1}
        rx, ry = rank.get(x.op, 3 if x.op != 'sym' else 2), rank.get(y.op, 3 if y.op != 'sym' else 2)
        if (ry, skey(y)) < (rx, skey(x)):
            x, y = y, x
        # y -> x
        if y is not x:
            self.rep[y] = x
            if y in self.tinfo and x.op not in ('const', 'ref', 'ext', 'tuple'):
                i, j = self.info(x), self.tinfo[y]
                i[0] |= j[0]
                i[1] |= j[1]
                i[2] = i[2] or j[2]
            self.rekey(x, y)

    def rekey(self, x, y):
        """What was learnt about y now holds of x."""
        for a, f in list(self.facts.items()):
            if y not in a.args:
                continue
            args = [x if i is y else i for i in a.args]
            b = self.pair(a.op, *args) if a.op in ('is', 'eq') else T(a.op, *args)
            if b is a:
                continue
            d = self.decide(b)
            if d is None:
                self.learn(b, f)
            elif d is not f and a.op in ('is', 'truthy', 'callable', 'isinst'):
                raise PathAbort('contradiction', infeasible=True)

    def val_eq(self, t):
        """Constant a term is known to equal, or None."""
        t = self.norm(t)
        if t.op == 'const':
            return t
        return self.eqs.get(t)

    def decide(self, a):
        f = self.facts.get(a)
        if f is not None:
            return f
        o = a.op
        if o == 'is':
            x, y = self.norm(a.args[0]), self.norm(a.args[1])
            if x is y:
                return True
            hard = ('const', 'ref', 'ext', 'tuple', 'bound')
            if x.op in hard and y.op in hard:
                if x.op == 'tuple' and y.op == 'tuple':
                    return None
                return False
            for p, q in ((x, y), (y, x)):
                if q is NONE:
                    if self.facts.get(T('truthy', p)):
                        return False
                    if self.typeof(p) is not None:
                        return False
                    if any(self.disjoint(c, bi('NoneType')) for c in self.pos_types(p)):
                        return False
                    if p.op in ('bound', 'bmeth', 'op', 'fstr', 'str', 'len'):
                        return False
                    v = self.val_eq(p)
                    if v is not None and v is not NONE:
                        return False
                if q.op == 'const' and q is not NONE:
                    qt = bi(type(cval(q)).__name__)
                    if self.isinst(p, qt) is False:
                        return False
                if q.op == 'ref' and p.op not in hard:
                    qc = self.typeof(q)
                    if qc is not None:
                        if self.isinst(p, qc) is False:
                            return False
                        if q.args[0] >= self.prog.naddr and self.rd(q).owner is None and p.op == 'sym':
                            return False        # a fresh object is no input
                        ty = self.typeof(p)
                        if ty is not None and ty is not qc and ty.op in ('ref', 'ext') and qc.op in ('ref', 'ext'):
                            return False
            k = self.pair('is', x, y)
            if k is not a:
                return self.facts.get(k)
            e = self.facts.get(self.pair('eq', x, y))
            if e is False and not self.maybe_nan:
                return False
            return None
        if o == 'eq':
            x, y = self.norm(a.args[0]), self.norm(a.args[1])
            if x is y:
                return True
            for p, q in ((x, y), (y, x)):
                if q is C(0) and p.op == 'len' and self.nonempty_str(p.args[0]) or q is C('') and self.nonempty_str(p):
                    return False
            vx, vy = self.val_eq(x), self.val_eq(y)
            if vx is not None and vy is not None:
                try:
                    return bool(cval(vx) == cval(vy))
                except Exception:
                    return None
            for p, q in ((x, y), (y, x)):
                if q.op == 'const':
                    if q is NONE:
                        r = self.decide(self.pair('is', p, NONE))
                        if r is not None:
                            return r
                    for pt in self.pos_types(p):
                        if pt.op == 'ext' and pt.args[0].startswith('builtins.'):
                            num = {'int', 'float', 'bool', 'complex'}
                            n1, n2 = pt.args[0][9:], type(cval(q)).__name__
                            if n1 in SOLID | {'bool'} and n1 != n2 and not (n1 in num and n2 in num):
                                return False
                    if cval(q) == '' and self.facts.get(T('truthy', p)):
                        return False
                    if isinstance(cval(q), (int, float)) and not isinstance(cval(q), bool):
                        r = self.cmp_bounds(p, cval(q))
                        if r in ('lt', 'gt'):
                            return False
                if q.op == 'ref' and p.op == 'ref':
                    cp, cq = self.typeof(p), self.typeof(q)
            for p, q in ((x, y), (y, x)):
                if p.op in ('ext', 'ref') and self.is_class(p) and (q.op in ('ext', 'ref') and self.is_class(q) or q.op == 'const'):
                    return False
            l1, l2 = self.facts.get(T('lt', x, y)), self.facts.get(T('lt', y, x))
            if l1 or l2:
                return False
            k = self.pair('eq', x, y)
            if k is not a:
                f = self.facts.get(k)
                if f is not None:
                    return f
            i = self.facts.get(self.pair('is', x, y))
            if i:
                return True
            return None
        if o == 'lt':
            x, y = self.norm(a.args[0]), self.norm(a.args[1])
            if x is y:
                return False
            vx, vy = self.val_eq(x), self.val_eq(y)
            if vx is not None and vy is not None:
                try:
                    return bool(cval(vx) < cval(vy))
                except Exception:
                    return None
            if vy is not None and isinstance(cval(vy), (int, float)):
                r = self.cmp_bounds(x, cval(vy))
                if r == 'lt':
                    return True
                if r in ('gt', 'ge', 'eq'):
                    return False
            if vx is not None and isinstance(cval(vx), (int, float)):
                r = self.cmp_bounds(y, cval(vx))
                if r == 'gt':
                    return True
                if r in ('lt', 'le', 'eq'):
                    return False
            f = self.facts.get(T('lt', y, x))
            if f:
                return False
            if self.facts.get(self.pair('eq', x, y)):
                return False
            k = T('lt', x, y)
            if k is not a:
                return self.facts.get(k)
            return None
        if o == 'isinst':
            return self.isinst(a.args[0], a.args[1])
        if o == 'subcls':
            return self.subclass(a.args[0], a.args[1])
        if o == 'truthy':
            return self.decide_truthy(a.args[0])
        if o == 'callable':
            return self.decide_callable(a.args[0])
        if o == 'hasattr':
            t = self.norm(a.args[0])
            if t is not a.args[0]:
                return self.facts.get(T('hasattr', t, a.args[1]))
            return None
        if o in ('in',):
            x, y = self.norm(a.args[0]), self.norm(a.args[1])
            k = T('in', x, y)
            if k is not a:
                return self.facts.get(k)
            return None
        return None

    maybe_nan = False

    def nonempty_str(self, t):
        """str(x) of a number or an identifier is never empty."""
        if t.op == 'str' and t.args[0] in ('str', 'repr') and len(t.args) == 2:
            ty = self.typeof(t.args[1])
            return ty in (ext('uuid.UUID'), bi('int'), bi('float'), bi('bool'), bi('complex'), bi('type'), bi('NoneType'))
        if t.op == 'str' and t.args[0] in ('+', 'format'):
            return any(isinstance(x, Term) and x.op == 'const' and cval(x) not in ('', None) for x in t.args[1:])
        return False

    def pair(self, op, x, y):
        if x.op == 'const' and y.op != 'const':
            return T(op, y, x)
        if y.op == 'const' and x.op != 'const':
            return T(op, x, y)
        return T(op, x, y) if skey(x) <= skey(y) else T(op, y, x)

    def cmp_bounds(self, x, c):
        """Relation of x to constant c implied by learnt bounds."""
        b = self.bounds.get(x)
        lo = hi = None
        if b:
            lo, hi = b
        if x.op == 'len' and lo is None:
            lo = (0, False)
        try:
            if hi is not None:
                if hi[1] and hi[0] <= c:
                    return 'lt'
                if not hi[1] and hi[0] < c:
                    return 'lt'
                if not hi[1] and hi[0] <= c:
                    if lo is not None and lo[0] == c and not lo[1]:
                        return 'eq'
                    return 'le'
            if lo is not None:
                if lo[1] and lo[0] >= c:
                    return 'gt'
                if not lo[1] and lo[0] > c:
                    return 'gt'
                if not lo[1] and lo[0] >= c:
                    return 'ge'
        except TypeError:
            pass
        return None

    def decide_truthy(self, t):
        t = self.norm(t)
        o = t.op
        if o == 'const':
            return bool(cval(t))
        if o == 'tuple':
            return len(t.args) > 0
        if o == 'ref':
            c = self.rd(t)
            if c.kind in ('list', 'set', 'dict'):
                return len(c.data) > 0
            if c.kind == 'obj':
                for k in self.mro(c.cls):
                    if k.op == 'ref' and ('__bool__' in self.rd(k).data.ns or '__len__' in self.rd(k).data.ns):
                        return None
            return True
        if o in ('ext', 'bound', 'bmeth', 'super', 'partial', 'exc', 'ubmeth', 'sbmeth', 'wrapsdeco', 'slice', 'code'):
            return True
        if o == 'not':
            r = self.decide(T('truthy', t.args[0]))
            return None if r is None else not r
        if o in ('is', 'eq', 'lt', 'in', 'isinst', 'hasattr', 'callable', 'subcls', 'truthy'):
            return self.decide(t)
        if o == 'typeof':
            return True
        f = self.facts.get(T('truthy', t))
        if f is not None:
            return f
        if self.facts.get(T('is', t, NONE)):
            return False
        v = self.val_eq(t)
        if v is not None:
            return bool(cval(v))
        ts = self.pos_types(t)
        for p in ts:
            if p.op == 'ref':
                has = False
                for k in self.mro(p):
                    if k.op == 'ref':
                        ns = self.rd(k).data.ns
                        if '__bool__' in ns or '__len__' in ns:
                            has = True
                    elif k.op == 'ext' and k.args[0] in ('builtins.list', 'builtins.dict', 'builtins.set', 'builtins.str', 'builtins.tuple', 'builtins.int'):
                        has = True
                if not has:
                    return True
            if p is bi('type') or p is bi('function'):
                return True
        if self.nonempty_str(t):
            return True
        if o == 'len' or self.pytype(t) in (int, float):
            e = self.facts.get(self.pair('eq', t, C(0)))
            if e is not None:
                return not e
            r = self.cmp_bounds(t, 0)
            if r in ('lt', 'gt'):
                return True
        ln = self.facts.get(self.pair('eq', T('len', t), C(0)))
        if ln is not None:
            return not ln
        if t in self.mat:
            return len(self.mat[t]) > 0
        return None

    def decide_callable(self, t):
        t = self.norm(t)
        if t.op in ('const', 'tuple'):
            return False
        if t.op in ('bound', 'bmeth', 'super'):
            return True
        if t.op == 'ext':
            return True
        if t.op == 'ref':
            c = self.rd(t)
            if c.kind in ('class', 'func'):
                return True
            if c.kind in ('list', 'set', 'dict', 'property', 'module'):
                return False
            if c.kind == 'obj':
                return self.class_lookup(c.cls, '__call__') is not MISSING
            return None
        if t.op == 'typeof':
            return True
        for p in self.pos_types(t):
            if p.op == 'ref':
                return self.class_lookup(p, '__call__') is not MISSING
            if p.op == 'ext' and p.args[0].startswith('builtins.'):
                pt = getattr(_pybuiltins, p.args[0][9:], None)
                if p.args[0] in ('builtins.type', 'builtins.function'):
                    return True
                if isinstance(pt, type):
                    if pt is object:
                        return None
                    return any('__call__' in vars(c) for c in pt.__mro__)
            if p.op == 'ext' and p.args[0] in ('datetime.datetime', 'datetime.date', 'uuid.UUID'):
                return False
        if self.facts.get(T('is', t, NONE)):
            return False
        f = self.facts.get(T('callable', t))
        if f is None and t.op == 'attr' and isinstance(t.args[1], str) and self.has_lib_attr(t.args[0], t.args[1]) \
                and t.args[1] not in LIB_DATA:
            return True
        return f

    def truth(self, t):
        """Truth value of a term, partitioning when unknown."""
        t = self.norm(t)
        d = self.decide_truthy(t)
        if d is not None:
            return d
        if t.op == 'not':
            return not self.truth(t.args[0])
        if t.op in ('is', 'eq', 'lt', 'in', 'isinst', 'hasattr', 'callable', 'subcls', 'truthy'):
            return self.atom(t)
        if t.op == 'ref':
            c = self.rd(t)
            if c.kind == 'obj':
                for n in ('__bool__', '__len__'):
                    f = self.class_lookup(c.cls, n)
                    if f is not MISSING:
                        return self.truth(self.call(self.bind(f, t, c.cls), [], {}))
        if t.op == 'len':
            return not self.atom(self.pair('eq', t, C(0)))
        if self.raises is not None and (self.arrayish(t) or t.op in ('elem', 'item') and self.arrayish(t.args[0])):
            a = T('truth', t)
            for cls in self.pick_raise(a, self.raises(self, a)):
                self.raise_(cls)
        return self.atom(T('truthy', t))

    # --------------------------------------------------------------- compare
    def compare(self, op, a, b, node=None):
        a, b = self.norm(a), self.norm(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.cmp_is(a, b)
            return self.negate(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.cmp_eq(a, b)
            return self.negate(r) if isinstance(op, ast.NotEq) else r
        if a.op == 'const' and b.op == 'const' and isinstance(op, (ast.LtE, ast.GtE)) and \
                all(type(cval(x)) in (int, float, bool) for x in (a, b)):
            return C(cval(a) <= cval(b) if isinstance(op, ast.LtE) else cval(a) >= cval(b))
        if isinstance(op, ast.Lt):
            return self.cmp_lt(a, b, node)
        if isinstance(op, ast.Gt):
            return self.cmp_lt(b, a, node)
        if isinstance(op, ast.LtE):
            return self.negate(self.cmp_lt(b, a, node))
        if isinstance(op, ast.GtE):
            return self.negate(self.cmp_lt(a, b, node))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.cmp_in(a, b, node)
            return self.negate(r) if isinstance(op, ast.NotIn) else r
        raise PathAbort('comparison')

    def negate(self, t):
        if t is TRUE:
            return FALSE
        if t is FALSE:
            return TRUE
        if t.op == 'not':
            return t.args[0]
        return T('not', t)

    def as_bool(self, t):
        d = self.decide(t)
        return t if d is None else C(d)

    def cmp_is(self, a, b):
        if a.op == 'typeof' and b.op in ('ext', 'ref'):
            pass
        return self.as_bool(self.pair('is', a, b))

    def is_view(self, t):
        return t.op == 'ref' and self.rd(t).kind == 'list' and self.rd(t).cls is VIEW

    def view_set(self, t):
        """dict.keys() and dict.items() take part in set operations."""
        return self.new_set(self.rd(t).data) if self.is_view(t) else t

    def container_items(self, t):
        t = self.norm(t)
        if t.op == 'tuple':
            return list(t.args)
        if t.op == 'ref':
            c = self.rd(t)
            if c.kind in ('list', 'set'):
                return list(c.data)
        return None

    def cmp_eq(self, a, b):
        if a is b:
            return FALSE if a.op == 'const' and cval(a) != cval(a) else TRUE        # NaN
        ca, cb = self.typeof(a), self.typeof(b)
        # repo-defined __eq__
        for x, y in ((a, b), (b, a)):
            if x.op == 'ref' and self.rd(x).kind == 'obj':
                f = self.class_lookup(self.rd(x).cls, '__eq__')
                if f is not MISSING:
                    return self.call(self.bind(f, x, self.rd(x).cls), [y], {})
        if self.is_view(a) or self.is_view(b):
            a, b = self.view_set(a), self.view_set(b)
        ia, ib = self.container_items(a), self.container_items(b)
        if ia is not None and ib is not None:
            ka = 'tuple' if a.op == 'tuple' else self.rd(a).kind
            kb = 'tuple' if b.op == 'tuple' else self.rd(b).kind
            if ka != kb:
                return FALSE
            if ka == 'set':
                if len(ia) != len(ib):
                    return FALSE
                for x in ia:
                    if not any(self.truth(self.cmp_eq(x, y)) for y in ib):
                        return FALSE
                return TRUE
            if len(ia) != len(ib):
                return FALSE
            for x, y in zip(ia, ib):
                if not self.truth(self.cmp_eq(self.norm(x), self.norm(y))):
                    return FALSE
            return TRUE
        if a.op == 'ref' and b.op == 'ref':
            kA, kB = self.rd(a).kind, self.rd(b).kind
            if kA == 'dict' and kB == 'dict':
                ea, eb = self.rd(a).data, self.rd(b).data
                if len(ea) != len(eb):
                    return FALSE
                for k, v in ea:
                    w = self.dict_find(b, k)
                    if w is None or not self.truth(self.cmp_eq(self.norm(v), self.norm(w[1]))):
                        return FALSE
                return TRUE
            cont = ('list', 'set', 'dict')
            if kA in cont or kB in cont:
                if kA != kB:
                    return FALSE
            else:
                return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op in ('ref', 'tuple') and y.op == 'const':
                return FALSE
            if x.op == 'ref' and self.rd(x).kind in ('obj', 'class', 'func') and y.op == 'sym':
                return self.as_bool(self.pair('eq', a, b))
        r = self.array_op('eq', a, b)
        if r is not None:
            return r
        return self.as_bool(self.pair('eq', a, b))

    def cmp_lt(self, a, b, node=None):
        for x, y in ((a, b), (b, a)):
            if x.op == 'len' and self.is_len0(x, y):
                pass
        for x in (a, b):
            if x is NONE:
                self.raise_(bi('TypeError'), node)
        # len(x) < 1  is  len(x) == 0 ; 0 < len(x) is not empty
        if a.op == 'len' and b is C(1):
            return self.cmp_eq(a, C(0))
        if b.op == 'len' and a is C(0):
            return self.negate(self.cmp_eq(b, C(0)))
        if a.op == 'len' and b is C(0):
            return FALSE
        sa, sb = self.container_items(a), self.container_items(b)
        if sa is not None and sb is not None and self.kind(a) == 'set' and self.kind(b) == 'set':
            sub = all(any(self.truth(self.cmp_eq(x, y)) for y in sb) for x in sa)
            return C(sub and len(sa) < len(sb))
        r = self.array_op('lt', a, b, node)
        if r is not None:
            return r
        for cls in self.compare_raises(a, b, node):
            self.raise_(cls, node)
        return self.as_bool(T('lt', a, b))

    def compare_raises(self, a, b, node):
        if self.raises is None:
            return []
        t = T('lt', a, b)
        return self.pick_raise(t, self.raises(self, T('compare', *sorted((a, b), key=skey))))

    def is_len0(self, x, y):
        return False

    def cmp_in(self, x, y, node=None):
        y = self.norm(y)
        if y.op == 'tuple' or (y.op == 'ref' and self.rd(y).kind in ('list', 'set', 'dict', 'class_dict')):
            if y.op == 'tuple':
                items = y.args
            else:
                c = self.rd(y)
                if c.kind == 'dict':
                    items = [k for k, _ in c.data]
                else:
                    items = c.data
            if y.op == 'ref' and self.rd(y).kind in ('set', 'dict'):
                self.check_hashable(x, node)
            for i in items:
                if self.norm(i) is x:
                    return TRUE
            for i in items:
                i = self.norm(i)
                e = self.cmp_is(x, i) if (i.op in ('ref',) and self.rd(i).kind in ('obj', 'class', 'func')) else self.cmp_eq(x, i)
                if self.truth(e):
                    return TRUE
            return FALSE
        if y.op == 'ref':
            c = self.rd(y)
            if c.kind == 'obj':
                f = self.class_lookup(c.cls, '__contains__')
                if f is not MISSING:
                    return self.call(self.bind(f, y, c.cls), [x], {}, node)
            if c.kind in ('gen', 'iter'):
                for i in self.to_items(y):
                    if self.truth(self.cmp_eq(x, self.norm(i))):
                        return TRUE
                return FALSE
        if y.op == 'const' and isinstance(cval(y), str):
            v = self.val_eq(x)
            if v is not None and isinstance(cval(v), str):
                return C(cval(v) in cval(y))
            return self.as_bool(T('in', x, y))
        if y is NONE:
            self.raise_(bi('TypeError'), node)
        ov = self.sitems.get(y)
        if ov:
            for k, v in reversed(ov):
                if k is x or self.truth(self.cmp_eq(x, k)):
                    return C(v is not None)
        if y in self.mat:
            for i in self.mat[y]:
                if i is x:
                    return TRUE
        return self.as_bool(T('in', x, y))

    def check_hashable(self, x, node=None):
        x = self.norm(x)
        if x.op == 'ref' and self.rd(x).kind in ('list', 'dict', 'set'):
            cls = self.rd(x).cls
            if self.class_lookup(cls, '__hash__') is MISSING or cls.op == 'ext':
                self.raise_(bi('TypeError'), node)
        elif x.op == 'tuple':
            for y in x.args:
                self.check_hashable(y, node)
        elif self.raises is not None and x.op not in ('const', 'ref', 'ext'):
            for cls in self.pick_raise(T('hash', x), self.raises(self, T('hash', x))):
                self.raise_(cls, node)

    # ------------------------------------------------------------- exceptions
    def raise_(self, cls, node=None, attrs=None):
        exc = self.new_obj(cls, attrs or {'args': tup()})
        raise AbsRaise(exc, node or self.node, self.where(node))

    def pick_raise(self, term, classes):
        """Partition on the outcome of an operation that may raise one of
        `classes`; the same operation has the same outcome later on."""
        if not classes:
            return []
        if term in self.outcome:
            o = self.outcome[term]
        else:
            c = self.choose(len(classes) + 1, T('raises', term))
            o = None if c == 0 else classes[c - 1]
            self.outcome[term] = o
        return [o] if o is not None else []

    def exc_class(self, exc):
        return self.typeof(exc)

    # ------------------------------------------------------------- attributes
    def class_lookup(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if c.op == 'ref':
                ns = self.rd(c).data.ns
                if name in ns:
                    return ns[name]
        return MISSING

    def class_lookup_where(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if c.op == 'ref':
                ns = self.rd(c).data.ns
                if name in ns:
                    return c, ns[name]
        return None, MISSING

    def bind(self, v, obj, cls):
        v = self.norm(v)
        if v.op == 'ref':
            c = self.rd(v)
            if c.kind == 'func':
                return T('bound', v, obj)
            if c.kind == 'static':
                return c.data
            if c.kind == 'classm':
                return T('bound', c.data, cls)
        return v

    def overridden(self, cls, name):
        """Is `name` redefined in some repo class below cls?"""
        if cls.op != 'ref':
            return True
        for q, k in self.prog.classes.items():
            if k is not cls and self.subclass_known(k, cls) and name in self.rd(k).data.ns:
                return True
        return False

    def get_attr(self, obj, name, node=None, default=NOARG, probe=False):
        """getattr.  probe=True: only decide presence (hasattr)."""
        obj = self.norm(obj)
        r = self._get_attr(obj, name, node, default is not NOARG or probe)
        if r is MISSING:
            if probe:
                return FALSE
            if default is not NOARG:
                return default
            self.raise_(bi('AttributeError'), node)
        return TRUE if probe else r

    def _inst_class_attr(self, obj, cls, name, node, inst):
        """Class part of an instance attribute lookup.  Returns (found, value, is_data)."""
        owner, v = self.class_lookup_where(cls, name)
        if v is MISSING:
            return False, None, False
        v = self.norm(v)
        if v.op == 'ref':
            c = self.rd(v)
            if c.kind == 'property':
                return True, v, True
        return True, v, False

    def call_property(self, prop, which, obj, args, node):
        f = self.rd(prop).data[which]
        if f is None or f is NONE:
            self.raise_(bi('AttributeError'), node)
        return self.call(f, [obj] + list(args), {}, node)

    def _get_attr(self, obj, name, node, soft):
        o = obj.op
        if name == '__class__':
            ty = self.typeof(obj)
            return ty if ty is not None else T('typeof', obj)
        if o == 'ref':
            c = self.rd(obj)
            k = c.kind
            if k in ('obj', 'list', 'dict', 'set'):
                if name == '__dict__':
                    self.imprecise('__dict__')
                    return T('attr', obj, name)
                if c.cls is not None and c.cls.op == 'ref':
                    found, v, data = self._inst_class_attr(obj, c.cls, name, node, c)
                    if found and data is True:
                        return self.call_property(v, 0, obj, [], node)
                    if name in c.attrs:
                        return c.attrs[name]
                    if found:
                        return self.bind(v, obj, c.cls)
                elif name in c.attrs:
                    return c.attrs[name]
                if k in ('list', 'dict', 'set'):
                    pt = {'list': list, 'dict': dict, 'set': set}[k]
                    if c.cls is not None and self.cname(c.cls) == 'collections.OrderedDict':
                        import collections
                        pt = collections.OrderedDict
                    if hasattr(pt, name):
                        return T('bmeth', obj, name)
                    return MISSING
                # exception instances and other ext bases
                for b in self.mro(c.cls) if c.cls is not None else []:
                    if b.op == 'ext' and b is not bi('object'):
                        n = b.args[0]
                        pc = getattr(_pybuiltins, n[9:], None) if n.startswith('builtins.') else None
                        if isinstance(pc, type):
                            if hasattr(pc, name) or name in ('message',) and False:
                                return T('bmeth', obj, name) if callable(getattr(pc, name)) else T('attr', obj, name)
                        else:
                            return T('attr', obj, name)
                if hasattr(object, name):
                    return T('bmeth', obj, name)
                ga = self.class_lookup(c.cls, '__getattr__') if c.cls is not None else MISSING
                if ga is not MISSING:
                    return self.call(self.bind(ga, obj, c.cls), [C(name)], {}, node)
                return MISSING
            if k == 'class':
                d = c.data
                if name == '__name__':
                    return C(d.name)
                if name == '__qualname__':
                    return C(d.name)
                if name == '__module__':
                    return C(d.module)
                if name == '__mro__':
                    return tup(*self.mro(obj))
                if name == 'mro':
                    return T('bmeth', obj, 'mro')
                if name == '__bases__':
                    return tup(*d.bases)
                if name == '__dict__':
                    return self.new_dict([[C(k), v] for k, v in d.ns.items()])
                if name == '__doc__' and '__doc__' not in d.ns:
                    return T('attr', obj, '__doc__')
                v = self.class_lookup(obj, name)
                if v is not MISSING:
                    v = self.norm(v)
                    if v.op == 'ref':
                        vc = self.rd(v)
                        if vc.kind == 'static':
                            return vc.data
                        if vc.kind == 'classm':
                            return T('bound', vc.data, obj)
                    return v
                meta = self.metaclass(obj)
                mv = self.class_lookup(meta, name) if meta.op == 'ref' else MISSING
                if mv is not MISSING:
                    mv = self.norm(mv)
                    if mv.op == 'ref' and self.rd(mv).kind == 'property':
                        return self.call_property(mv, 0, obj, [], node)
                lib = None
                for b in self.mro(obj):
                    if b.op == 'ext':
                        n = b.args[0]
                        pc = getattr(_pybuiltins, n[9:], None) if n.startswith('builtins.') else None
                        if isinstance(pc, type):
                            if hasattr(pc, name):
                                return T('ubmeth', b, name)
                        elif lib is None:
                            lib = b
                if mv is not MISSING:
                    return self.bind(mv, obj, meta)
                if lib is not None:
                    return T('attr', obj, name)
                if hasattr(type, name):
                    return T('bmeth', obj, name)
                if (obj, name) in self.sattrs:
                    return self.sattrs[(obj, name)]
                return MISSING
            if k == 'module':
                if name in c.data.ns:
                    return c.data.ns[name]
                sub = self.prog.import_module(self, c.data.name + '.' + name, soft=True)
                if sub is not None:
                    return sub
                return MISSING
            if k == 'func':
                if name in c.attrs:
                    return c.attrs[name]
                if name == '__name__':
                    return C(c.data.name)
                if name == '__code__':
                    return T('code', obj)
                if name == '__get__':
                    return T('bmeth', obj, '__get__')
                if name == '__doc__' and isinstance(c.data.node, ast.FunctionDef):
                    doc = ast.get_docstring(c.data.node, clean=False)
                    return NONE if doc is None else C(doc)
                if name in ('__doc__', '__module__', '__defaults__', '__qualname__', '__wrapped__', '__dict__'):
                    return T('attr', obj, name)
                return MISSING
            if k == 'property':
                if name in ('fget', 'fset', 'fdel'):
                    v = c.data[('fget', 'fset', 'fdel').index(name)]
                    return NONE if v is None else v
                if name in ('setter', 'getter', 'deleter'):
                    return T('bmeth', obj, name)
                if name == '__doc__':
                    return c.attrs.get('__doc__', T('attr', obj, '__doc__'))
                if name in ('__get__', '__set__', '__delete__'):
                    return T('bmeth', obj, name)
                return MISSING
            if k in ('gen', 'iter'):
                if name in ('__next__', '__iter__', 'send', 'close'):
                    return T('bmeth', obj, name)
                return MISSING
            if name in c.attrs:
                return c.attrs[name]
            return T('attr', obj, name)
        if o == 'const':
            v = cval(obj)
            if hasattr(v, name):
                a = getattr(v, name)
                if callable(a):
                    return T('bmeth', obj, name)
                try:
                    hash(a)
                    return C(a) if isinstance(a, (int, float, str, type(None))) else T('attr', obj, name)
                except TypeError:
                    return T('attr', obj, name)
            return MISSING
        if o == 'tuple':
            return T('bmeth', obj, name) if hasattr(tuple, name) else MISSING
        if o == 'super':
            return self.super_attr(obj, name, node)
        if o == 'ext':
            r = self.prog.ext_attr(obj, name, self)
            if self.stubs and r is not MISSING and r.op == 'ext':
                return self.stubs.get(r.args[0], r)
            return r
        if o == 'bound':
            if name == '__self__':
                return obj.args[1]
            if name == '__func__':
                return obj.args[0]
            r = self._get_attr(obj.args[0], name, node, soft)
            return r
        if o == 'code':
            if name == 'co_argcount':
                fd = self.rd(obj.args[0]).data
                a = fd.node.args
                return C(len(a.args) + len(getattr(a, 'posonlyargs', [])))
            return T('attr', obj, name)
        # symbolic values
        key = (obj, name)
        ty = self.typeof(obj)
        rc = None
        exact = False
        if ty is not None and ty.op == 'ref':
            rc, exact = ty, True
        else:
            best = None
            for p in self.pos_types(obj):
                if p.op == 'ref' and (best is None or self.subclass_known(p, best)):
                    best = p
            rc = best
        if rc is not None:
            found, v, data = self._inst_class_attr(obj, rc, name, node, None)
            over = (not exact) and self.overridden(rc, name)
            if key in self.sattrs:
                w = self.sattrs[key]
                return MISSING if w is None else w
            if found and not over:
                if data is True:
                    return self.call_property(v, 0, obj, [], node)
                vv = v
                if vv.op == 'ref' and self.rd(vv).kind in ('func', 'static', 'classm'):
                    return self.bind(vv, obj, T('typeof', obj) if not exact else rc)
                return v
            if found:
                if v.op == 'ref' and self.rd(v).kind in ('func', 'static', 'classm'):
                    return T('mbound', obj, name)
                return T('attr', obj, name)
            if hasattr(object, name):
                return T('bmeth', obj, name)
            for b in self.mro(rc):
                if b.op == 'ext' and b is not bi('object'):
                    pc = getattr(_pybuiltins, b.args[0][9:], None) if b.args[0].startswith('builtins.') else None
                    if isinstance(pc, type) and hasattr(pc, name):
                        return T('bmeth', obj, name) if callable(getattr(pc, name)) else T('attr', obj, name)
            return self.sym_attr(obj, name, soft)
        if key in self.sattrs:
            w = self.sattrs[key]
            return MISSING if w is None else w
        pt = self.pytype(obj)
        if pt is not None:
            if pt is type(None):
                return MISSING
            if hasattr(pt, name):
                return T('bmeth', obj, name) if callable(getattr(pt, name)) else T('attr', obj, name)
            if pt is type:
                return self.sym_attr(obj, name, soft)
            if ty is not None:
                return MISSING
            return self.sym_attr(obj, name, soft)
        if o == 'typeof' and name == '__name__':
            return T('attr', obj, name)
        if obj is NONE:
            return MISSING
        if self.facts.get(T('hasattr', obj, C(name))) is False:
            return MISSING
        for cls in self.attr_raises(obj, name):
            if cls is bi('AttributeError') and soft:
                return MISSING
            self.raise_(cls, node)
        return self.sym_attr(obj, name, soft)

    def attr_raises(self, obj, name):
        if self.raises is None:
            return []
        t = T('attr', obj, name)
        return self.pick_raise(t, self.raises(self, t))

    def has_lib_attr(self, obj, name):
        for p in self.pos_types(obj):
            if p.op == 'ext' and name in LIB_ATTRS.get(p.args[0], ()):
                return True
        return False

    def sym_attr(self, obj, name, soft):
        if soft and not self.has_lib_attr(obj, name):
            if not self.atom(T('hasattr', obj, C(name))):
                return MISSING
        return T('attr', obj, name)

    def super_attr(self, sup, name, node):
        cls, obj = sup.args
        ocls = None
        if self.is_class(obj) and obj.op in ('ref',):
            # super in a classmethod / metaclass __new__
            if self.subclass_known(obj, cls):
                ocls = obj
            else:
                ocls = self.metaclass(obj)
        else:
            ocls = self.typeof(obj)
            if ocls is None or ocls.op != 'ref':
                for p in self.pos_types(obj):
                    if p.op == 'ref' and self.subclass_known(p, cls):
                        ocls = p
        if ocls is None or ocls.op != 'ref' or not self.subclass_known(ocls, cls):
            ocls = cls
        owner, v = self.class_lookup_where(ocls, name, after=cls)
        if v is MISSING:
            m = self.mro(ocls)
            m = m[m.index(cls) + 1:] if cls in m else m
            for b in m:
                if b.op == 'ext':
                    return T('sbmeth', b, obj, name)
            return T('sbmeth', bi('object'), obj, name)
        v = self.norm(v)
        if v.op == 'ref':
            c = self.rd(v)
            if c.kind == 'property':
                return self.call_property(v, 0, obj, [], node)
            if c.kind == 'func':
                return v if name == '__new__' else T('bound', v, obj)
            if c.kind == 'static':
                return c.data
            if c.kind == 'classm':
                return T('bound', c.data, obj if self.is_class(obj) else (self.typeof(obj) or T('typeof', obj)))
        return v

    def set_attr(self, obj, name, value, node=None):
        obj = self.norm(obj)
        o = obj.op
        if o == 'ref':
            c = self.rd(obj)
            if c.kind in ('obj', 'list', 'dict', 'set') and c.cls is not None and c.cls.op == 'ref':
                found, v, data = self._inst_class_attr(obj, c.cls, name, node, c)
                if found and data is True:
                    self.call_property(v, 1, obj, [value], node)
                    return
                sa = self.class_lookup(c.cls, '__setattr__')
                if sa is not MISSING:
                    self.call(self.bind(sa, obj, c.cls), [C(name), value], {}, node)
                    return
            if name == '__class__':
                if self.is_class(self.norm(value)) is False or self.pytype(value) not in (None, type):
                    self.raise_(bi('TypeError'), node)
                raise PathAbort('assignment of __class__')
            if c.owner is not None:
                self.event('setattr', name, obj, value=value, node=node)
            c = self.wr(obj)
            if c.kind in ('class', 'module'):
                c.data.ns[name] = value
                self.event('setattr', name, obj, value=value, node=node)
            else:
                c.attrs[name] = value
            return
        if o in ('const', 'tuple'):
            self.raise_(bi('AttributeError'), node)
        if o == 'super':
            self.set_attr(obj.args[1], name, value, node)
            return
        ty = self.typeof(obj)
        rc = ty if (ty is not None and ty.op == 'ref') else None
        if rc is None:
            for p in self.pos_types(obj):
                if p.op == 'ref' and (rc is None or self.subclass_known(p, rc)):
                    rc = p
        if rc is not None:
            found, v, data = self._inst_class_attr(obj, rc, name, node, None)
            if found and data is True and not (ty is None and self.overridden(rc, name)):
                self.call_property(v, 1, obj, [value], node)
                return
        self.event('setattr', name, obj, value=value, node=node)
        self.mutated(obj, '.' + name + ' =', node)
        term = T('setattr', obj, name, value)
        if self.raises is not None:
            for cls in self.pick_raise_n(term, self.raises(self, term)):
                self.raise_opaque(term, cls, node)
        self.sattrs[(obj, name)] = value
        f = T('hasattr', obj, C(name))
        self.facts.pop(f, None)

    def del_attr(self, obj, name, node=None):
        obj = self.norm(obj)
        if obj.op == 'ref':
            c = self.rd(obj)
            if c.cls is not None and c.cls.op == 'ref':
                found, v, data = self._inst_class_attr(obj, c.cls, name, node, c)
                if found and data is True:
                    self.call_property(v, 2, obj, [], node)
                    return
            c = self.wr(obj)
            if c.kind in ('class', 'module'):
                if name not in c.data.ns:
                    self.raise_(bi('AttributeError'), node)
                del c.data.ns[name]
            else:
                if name not in c.attrs:
                    self.raise_(bi('AttributeError'), node)
                del c.attrs[name]
            self.event('delattr', name, obj, node=node)
            return
        ty = self.typeof(obj)
        if ty is not None and ty.op == 'ref':
            found, v, data = self._inst_class_attr(obj, ty, name, node, None)
            if found and data is True:
                self.call_property(v, 2, obj, [], node)
                return
        self.event('delattr', name, obj, node=node)
        term = T('delattr', obj, name)
        if self.raises is not None:
            for cls in self.pick_raise_n(term, self.raises(self, term)):
                self.raise_opaque(term, cls, node)
        self.sattrs[(obj, name)] = None

    def pick_raise_n(self, term, classes):
        """As pick_raise, for effects (a new outcome each time)."""
        if not classes:
            return []
        c = self.choose(len(classes) + 1, T('raises', term))
        return [] if c == 0 else [classes[c - 1]]

    def raise_opaque(self, term, cls, node=None):
        exc = T('exc', term, cls)
        self.info(exc)[2] = cls
        self.event('raised', None, exc, node=node)
        raise AbsRaise(exc, node or self.node, self.where(node))

    # ----------------------------------------------------------------- events
    def event(self, kind, name=None, target=None, args=(), kwargs=(), value=None, node=None, raw=None):
        e = Event(kind, name, target, tuple(self.freeze(a) for a in args),
                  tuple((k, self.freeze(v)) for k, v in kwargs), node or self.node,
                  self.where(node), None if value is None else self.freeze(value), raw)
        e.idx = len(self.events)
        self.events.append(e)
        return e

    def freeze(self, t, depth=0, seen=()):
        """Structural snapshot of a value."""
        t = self.norm(t)
        if t.op == 'tuple':
            return T('tuple', *[self.freeze(x, depth + 1, seen) for x in t.args])
        if t.op == 'ref':
            c = self.rd(t)
            if t in seen or depth > 6:
                return t
            s = seen + (t,)
            if c.kind in ('list', 'set'):
                items = [self.freeze(x, depth + 1, s) for x in c.data]
                if c.kind == 'set':
                    items.sort(key=skey)
                return T(c.kind, c.cls, *items)
            if c.kind == 'dict':
                return T('dict', c.cls, *[T('kv', self.freeze(k, depth + 1, s), self.freeze(v, depth + 1, s))
                                          for k, v in c.data])
            return t
        if t.op in ('mcall', 'call', 'op', 'str', 'fstr') and depth <= 6:
            return T(t.op, *[self._freeze_arg(x, depth + 1, seen) for x in t.args])
        return t

    def _freeze_arg(self, x, depth, seen):
        if isinstance(x, Term):
            return self.freeze(x, depth, seen)
        if isinstance(x, tuple):
            return tuple(self._freeze_arg(y, depth, seen) for y in x)
        return x

    def mutated(self, ref, what, node=None):
        """Record an in-place change of an object that was not created here."""
        self.mutations.append((ref, what, self.where(node), len(self.labels)))


RET = {
    'builtins.int': 'builtins.int', 'builtins.float': 'builtins.float', 'builtins.str': 'builtins.str',
    'builtins.complex': 'builtins.complex', 'builtins.bool': 'builtins.bool', 'builtins.repr': 'builtins.str',
    'builtins.len': 'builtins.int', 'builtins.abs': None, 'builtins.id': 'builtins.int',
    'builtins.hash': 'builtins.int', 'datetime.datetime.strptime': 'datetime.datetime',
    'uuid.UUID': 'uuid.UUID', 'uuid.uuid4': 'uuid.UUID', 'math.isnan': 'builtins.bool', 'math.isinf': 'builtins.bool',
    'builtins.round': 'builtins.int',
    'base64.b64encode': 'builtins.bytes', 'base64.b64decode': 'builtins.bytes',
    'numpy.array_equal': 'builtins.bool', 'numpy.allclose': 'builtins.bool',
    'json.dumps': 'builtins.str', 're.compile': 're.Pattern',
    'numpy.array': 'numpy.ndarray', 'numpy.asarray': 'numpy.ndarray', 'numpy.ones': 'numpy.ndarray',
    'numpy.zeros': 'numpy.ndarray',
}
EXT_FUNCTIONS = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.zeros', 'numpy.ones'}
NDARRAYS = {'numpy.ndarray', 'vectormath.Vector3', 'vectormath.Vector2', 'vectormath.Vector3Array',
            'vectormath.Vector2Array'}
# attributes the values of library classes are known to have
LIB_ATTRS = {
    're.Pattern': {'search', 'match', 'fullmatch', 'pattern', 'flags', 'sub', 'split', 'findall', 'finditer'},
    'numpy.ndarray': {'__iter__', '__len__', 'all', 'any', 'ravel', 'flatten', 'ndim', 'shape', 'dtype', 'size', 'tolist', 'astype', 'copy', 'reshape', 'flat', 'T'},
    'io.BytesIO': {'read', 'seek', 'close', 'closed', 'write', 'tell', 'getvalue', 'readable', 'seekable'},
}
for _n in NDARRAYS:
    LIB_ATTRS[_n] = LIB_ATTRS['numpy.ndarray']
LIB_DATA = {'pattern', 'flags', 'ndim', 'shape', 'dtype', 'size', 'closed', 'flat', 'T'}
STR_RET = {n: 'str' for n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'format', 'join',
                              'capitalize', 'title', 'casefold', 'swapcase', 'center', 'ljust', 'rjust',
                              'zfill', 'expandtabs', 'translate', 'removeprefix', 'removesuffix')}
STR_RET.update({'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool', 'isupper': 'bool', 'islower': 'bool',
                'find': 'int', 'index': 'int', 'count': 'int', 'encode': 'bytes', 'split': 'list'})
