"""Abstract models of builtins and of the few library names the repository uses."""
import ast

from .terms import (T, C, NONE, TRUE, FALSE, Term, is_const, cval, ext, bi, tup, show, skey)
from .interp import (Cell, AbsRaise, Signal, StopEach, PathAbort, MISSING, NOARG, VIEW)
import builtins as _b
SAFE_BUILTINS = {'int', 'float', 'complex', 'str', 'bool', 'bytes', 'hash', 'abs', 'round', 'repr', 'ascii', 'format',
                 'ord', 'chr', 'hex', 'bin', 'oct', 'divmod', 'pow', 'open', 'object', 'type', 'len', 'dir', 'bytearray',
                 'frozenset', 'unicode', 'long', 'NoneType', 'function', 'range', 'slice', 'min', 'max', 'tuple', 'list',
                 'dict', 'set', 'super', 'property', 'staticmethod', 'classmethod', 'print', 'memoryview', 'input'} | {
                     n for n in vars(_b) if isinstance(vars(_b)[n], type) and issubclass(vars(_b)[n], BaseException)}

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def arg(it, args, i, node):
    if i >= len(args):
        it.raise_(bi('TypeError'), node)
    return it.norm(args[i])


def attr_term(it, n):
    """Attribute name: python str when known, else the term."""
    v = it.val_eq(n)
    if v is not None and isinstance(cval(v), str):
        return cval(v)
    return it.norm(n)


# ------------------------------------------------------------------ predicates
def class_list(it, c, out, node):
    c = it.norm(c)
    if c.op == 'tuple':
        for x in c.args:
            class_list(it, x, out, node)
    else:
        if c.op == 'const' or (c.op == 'ref' and it.rd(c).kind not in ('class', 'namedtuple')):
            it.raise_(bi('TypeError'), node)
        out.append(c)
    return out


@model('builtins.isinstance')
def m_isinstance(it, args, kwargs, node):
    x, c = arg(it, args, 0, node), arg(it, args, 1, node)
    cs = class_list(it, c, [], node)
    if len(cs) == 1:
        r = it.isinst(x, cs[0])
        return C(r) if r is not None else T('isinst', x, cs[0])
    pend = []
    for k in cs:
        r = it.isinst(x, k)
        if r is True:
            return TRUE
        if r is None:
            pend.append(k)
    for k in pend:
        if it.atom(T('isinst', x, k)):
            return TRUE
    return FALSE


@model('builtins.issubclass')
def m_issubclass(it, args, kwargs, node):
    x, c = arg(it, args, 0, node), arg(it, args, 1, node)
    if it.is_class(x) is False:
        it.raise_(bi('TypeError'), node)
    for k in class_list(it, c, [], node):
        r = it.subclass(x, k)
        if r is None:
            r = it.atom(T('subcls', x, k))
        if r:
            return TRUE
    return FALSE


@model('builtins.callable')
def m_callable(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    r = it.decide_callable(x)
    return C(r) if r is not None else T('callable', x)


def is_attr_error(it, e):
    return it.isinst(e.exc, bi('AttributeError')) is True


@model('builtins.hasattr')
def m_hasattr(it, args, kwargs, node):
    x, n = arg(it, args, 0, node), attr_term(it, arg(it, args, 1, node))
    try:
        if isinstance(n, str):
            return it.get_attr(x, n, node, probe=True)
        return TRUE if sym_getattr(it, x, n, node, MISSING) is not MISSING else FALSE
    except AbsRaise as e:
        if is_attr_error(it, e):
            return FALSE
        raise


def sym_getattr(it, x, n, node, default):
    key = (x, n)
    if key in it.sattrs:
        w = it.sattrs[key]
        if w is not None:
            return w
        if default is not NOARG:
            return default
        it.raise_(bi('AttributeError'), node)
    if x.op == 'ref' and n in it.rd(x).attrs:
        return it.rd(x).attrs[n]
    if default is not NOARG:
        if not it.atom(T('hasattr', x, n)):
            return default
    return T('attr', x, n)


@model('builtins.getattr')
def m_getattr(it, args, kwargs, node):
    x, n = arg(it, args, 0, node), attr_term(it, arg(it, args, 1, node))
    default = it.norm(args[2]) if len(args) > 2 else NOARG
    if not isinstance(n, str):
        if n.op == 'const':
            it.raise_(bi('TypeError'), node)
        return sym_getattr(it, x, n, node, default)
    try:
        return it.get_attr(x, n, node, default)
    except AbsRaise as e:
        if default is not NOARG and is_attr_error(it, e):
            return default
        raise


@model('builtins.setattr')
def m_setattr(it, args, kwargs, node):
    x, n, v = arg(it, args, 0, node), attr_term(it, arg(it, args, 1, node)), arg(it, args, 2, node)
    if isinstance(n, str):
        it.set_attr(x, n, v, node)
    else:
        if n.op == 'const':
            it.raise_(bi('TypeError'), node)
        it.event('setattr', n, x, value=v, node=node)
        term = T('setattr', x, n, v)
        if it.raises is not None:
            for cls in it.pick_raise_n(term, it.raises(it, term)):
                it.raise_opaque(term, cls, node)
        it.sattrs[(x, n)] = v
    return NONE


@model('builtins.delattr')
def m_delattr(it, args, kwargs, node):
    x, n = arg(it, args, 0, node), attr_term(it, arg(it, args, 1, node))
    if isinstance(n, str):
        it.del_attr(x, n, node)
    else:
        it.event('delattr', n, x, node=node)
        it.sattrs[(x, n)] = None
    return NONE


@model('builtins.len')
def m_len(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    if x.op == 'tuple':
        return C(len(x.args))
    if x.op == 'const':
        try:
            return C(len(cval(x)))
        except TypeError:
            it.raise_(bi('TypeError'), node)
    if x.op == 'ref':
        c = it.rd(x)
        if c.kind in ('list', 'set', 'dict'):
            return C(len(c.data))
        if c.kind == 'obj':
            f = it.class_lookup(c.cls, '__len__')
            if f is not MISSING:
                return it.call(it.bind(f, x, c.cls), [], {}, node)
            if c.extra and 'fields' in c.extra:
                return C(len(c.extra['fields']))
        it.raise_(bi('TypeError'), node)
    if it.pytype(x) in (int, float, bool, complex, type(None)):
        it.raise_(bi('TypeError'), node)
    v = it.val_eq(x)
    if v is not None and isinstance(cval(v), str):
        return C(len(cval(v)))
    if x in it.mat:
        return C(len(it.mat[x]))
    t = T('len', x)
    v = it.val_eq(t)
    if v is not None:
        return v
    for cls in it.raise_for(t):
        it.raise_(cls, node)
    return t


@model('builtins.any')
def m_any(it, args, kwargs, node):
    tok = object()

    def cb(x):
        if it.truth(x):
            raise StopEach(tok)
    try:
        it.iter_each(arg(it, args, 0, node), cb, node)
    except StopEach as e:
        if e.token is not tok:
            raise
        return TRUE
    return FALSE


@model('builtins.all')
def m_all(it, args, kwargs, node):
    tok = object()

    def cb(x):
        if not it.truth(x):
            raise StopEach(tok)
    try:
        it.iter_each(arg(it, args, 0, node), cb, node)
    except StopEach as e:
        if e.token is not tok:
            raise
        return FALSE
    return TRUE


@model('builtins.next')
def m_next(it, args, kwargs, node):
    g = arg(it, args, 0, node)
    if g.op == 'ref':
        c = it.rd(g)
        if c.kind == 'gen':
            tok = object()
            box = []

            def cb(x):
                box.append(x)
                raise StopEach(tok)
            if len(args) > 1 or True:
                # a generator that is advanced again is converted to an iterator first
                if c.extra and c.extra.get('used'):
                    it.imprecise('next() of a started generator')
                try:
                    it.iter_each(g, cb, node)
                except StopEach as e:
                    if e.token is not tok:
                        raise
                    return box[0]
        elif c.kind == 'iter':
            w = it.wr(g)
            if w.data:
                return w.data.pop(0)
        elif c.kind == 'obj':
            f = it.class_lookup(c.cls, '__next__')
            if f is not MISSING:
                return it.call(it.bind(f, g, c.cls), [], {}, node)
            it.raise_(bi('TypeError'), node)
        else:
            it.raise_(bi('TypeError'), node)
        if len(args) > 1:
            return it.norm(args[1])
        it.raise_(bi('StopIteration'), node)
    return None


@model('builtins.iter')
def m_iter(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    if x.op == 'ref':
        k = it.rd(x).kind
        if k in ('gen', 'iter'):
            return x
        if k in ('list', 'set', 'dict'):
            return it.alloc(Cell('iter', bi('iterator'), it.to_items(x)))
        if k == 'obj':
            f = it.class_lookup(it.rd(x).cls, '__iter__')
            if f is not MISSING:
                return it.call(it.bind(f, x, it.rd(x).cls), [], {}, node)
            it.raise_(bi('TypeError'), node)
        if k == 'class' and it.metaclass(x).op == 'ref':
            f = it.class_lookup(it.metaclass(x), '__iter__')
            if f is not MISSING:
                return it.call(it.bind(f, x, it.metaclass(x)), [], {}, node)
        if k in ('class', 'func', 'module', 'property'):
            it.raise_(bi('TypeError'), node)
    if x.op in ('tuple', 'const'):
        return it.alloc(Cell('iter', bi('iterator'), it.to_items(x, node)))
    return it.alloc(Cell('iter', bi('iterator'), it.to_items(x, node)))


# ---------------------------------------------------------------- constructors
@model('builtins.list')
def m_list(it, args, kwargs, node):
    return it.new_list(it.to_items(it.norm(args[0]), node) if args else [])


@model('builtins.tuple')
def m_tuple(it, args, kwargs, node):
    return tup(*(it.to_items(it.norm(args[0]), node) if args else []))


@model('builtins.set', 'builtins.frozenset')
def m_set(it, args, kwargs, node):
    items = it.to_items(it.norm(args[0]), node) if args else []
    for i in items:
        it.check_hashable(i, node)
    return it.new_set(items)


@model('builtins.dict')
def m_dict(it, args, kwargs, node):
    r = it.new_dict([])
    if args or kwargs:
        dict_meth(it, r, 'update', args, kwargs, node)
    return r


@model('collections.OrderedDict')
def m_odict(it, args, kwargs, node):
    r = it.new_dict([], ext('collections.OrderedDict'))
    if args or kwargs:
        dict_meth(it, r, 'update', args, kwargs, node)
    return r


def pyfold(fn):
    def m(it, args, kwargs, node):
        vs = [it.val_eq(a) if it.norm(a).op != 'const' else it.norm(a) for a in args]
        if args and not kwargs and all(v is not None for v in vs):
            try:
                return C(fn(*[cval(v) for v in vs]))
            except (TypeError, ValueError, OverflowError) as e:
                it.raise_(bi(type(e).__name__), node)
        return None
    return m


for _n, _f in (('int', int), ('float', float), ('complex', complex), ('abs', abs), ('round', round),
               ('chr', chr), ('ord', ord)):
    MODELS['builtins.' + _n] = pyfold(_f)


CONV = {'int': ('__int__', '__index__', '__trunc__'), 'float': ('__float__', '__index__'),
        'complex': ('__complex__', '__float__', '__index__')}


def num_ctor(name, pyfn):
    fold = pyfold(pyfn)
    zero = C(pyfn()) if name != 'complex' else C(0j)

    def m(it, args, kwargs, node):
        if not args and not kwargs:
            return zero
        r = fold(it, args, kwargs, node)
        if r is not None:
            return r
        x = it.norm(args[0])
        if x.op in ('tuple',) or (x.op == 'ref' and it.rd(x).kind in ('list', 'set', 'dict', 'func', 'class')):
            it.raise_(bi('TypeError'), node)
        pt = it.pytype(x)
        if x is NONE or pt in (list, tuple, dict, set, frozenset, type(None), type):
            it.raise_(bi('TypeError'), node)
        if pt is complex and name != 'complex':
            it.raise_(bi('TypeError'), node)
        if x.op == 'ref' and it.rd(x).kind == 'obj':
            cls = it.rd(x).cls
            for dn in CONV[name]:
                f = it.class_lookup(cls, dn)
                if f is not MISSING:
                    return it.call(it.bind(f, x, cls), [], {}, node)
            if all(b.op == 'ref' or b is bi('object') for b in it.mro(cls)):
                it.raise_(bi('TypeError'), node)
        if len(args) == 1 and it.typeof(x) is bi(name):
            return x
        return None
    MODELS['builtins.' + name] = m


@model('builtins.slice')
def m_slice(it, args, kwargs, node):
    a = [it.norm(x) for x in args]
    if len(a) == 1:
        a = [NONE, a[0]]
    return T('slice', *(a + [NONE] * (3 - len(a))))


@model('builtins.abs')
def m_abs(it, args, kwargs, node):
    x = it.norm(args[0])
    if is_const(x):
        try:
            return C(abs(cval(x)))
        except TypeError:
            it.raise_(bi('TypeError'), node)
    if x.op == 'op' and x.args[0] == '-' and len(x.args) == 3:
        a, b = it.norm(x.args[1]), it.norm(x.args[2])
        if skey(b) < skey(a):       # |a - b| is |b - a|
            return T('call', bi('abs'), (T('op', '-', b, a),), ())
    return None


@model('random.choice')
def m_choice(it, args, kwargs, node):
    x = it.norm(args[0])
    if x.op == 'tuple':
        items = list(x.args)
    elif x.op == 'ref' and it.rd(x).kind == 'list':
        items = list(it.rd(x).data)
    else:
        return None
    if not items:
        it.raise_(bi('IndexError'), node)
    return it.norm(items[it.choose(len(items), T('pick', C('random choice')))])


num_ctor('int', int)
num_ctor('float', float)
num_ctor('complex', complex)


@model('builtins.str')
def m_str(it, args, kwargs, node):
    if not args:
        return C('')
    x = it.norm(args[0])
    if x.op == 'const':
        return C(str(cval(x)))
    if it.typeof(x) is bi('str'):
        return x
    if x.op == 'ref' and it.rd(x).kind == 'obj':
        f = it.class_lookup(it.rd(x).cls, '__str__')
        if f is not MISSING:
            return it.call(it.bind(f, x, it.rd(x).cls), [], {}, node)
    return T('str', 'str', x)


@model('builtins.repr')
def m_repr(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    return C(repr(cval(x))) if x.op == 'const' else T('str', 'repr', x)


@model('builtins.bool')
def m_bool(it, args, kwargs, node):
    if not args:
        return FALSE
    return C(it.truth(it.norm(args[0])))


@model('builtins.type')
def m_type(it, args, kwargs, node):
    if len(args) == 1:
        x = it.norm(args[0])
        t = it.typeof(x)
        return t if t is not None else T('typeof', x)
    if len(args) == 3:
        return type_new(it, bi('type'), args[0], args[1], args[2], node)
    it.raise_(bi('TypeError'), node)


@model('builtins.super')
def m_super(it, args, kwargs, node):
    return T('super', it.norm(args[0]), it.norm(args[1]))


@model('builtins.object')
def m_object(it, args, kwargs, node):
    return it.new_obj(bi('object'))


@model('builtins.property')
def m_property(it, args, kwargs, node):
    vals = [None, None, None]
    doc = None
    for i, a in enumerate(args[:3]):
        vals[i] = a
    if len(args) > 3:
        doc = args[3]
    for i, n in enumerate(('fget', 'fset', 'fdel')):
        if n in kwargs:
            vals[i] = kwargs[n]
    doc = kwargs.get('doc', doc)
    vals = [None if v is None or it.norm(v) is NONE else it.norm(v) for v in vals]
    return it.alloc(Cell('property', bi('property'), tuple(vals), {'__doc__': doc} if doc is not None else {}))


@model('builtins.staticmethod')
def m_static(it, args, kwargs, node):
    return it.alloc(Cell('static', None, it.norm(args[0])))


@model('builtins.classmethod')
def m_classm(it, args, kwargs, node):
    return it.alloc(Cell('classm', None, it.norm(args[0])))


@model('builtins.sorted')
def m_sorted(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    items = it.to_items(x, node)
    key = kwargs.get('key')
    if key is not None and it.norm(key) is NONE:
        key = None
    rev = it.truth(kwargs['reverse']) if 'reverse' in kwargs else False
    keys = [it.norm(it.call(key, [i], {}, node)) if key is not None else it.norm(i) for i in items]
    kv = [sort_key(it, k) for k in keys]
    if all(k is not None for k in kv):
        try:
            order = sorted(range(len(items)), key=lambda i: kv[i], reverse=rev)
            return it.new_list([items[i] for i in order])
        except TypeError:
            it.raise_(bi('TypeError'), node)
    if len(items) > 1:
        it.imprecise('order of sorted() on unknown keys')
    return it.new_list(items)


def sort_key(it, k):
    if k.op == 'tuple':
        r = [sort_key(it, it.norm(x)) for x in k.args]
        return None if any(x is None for x in r) else tuple(r)
    v = it.val_eq(k)
    if v is None or cval(v) is None:
        return None
    return cval(v)


@model('builtins.reversed')
def m_reversed(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    return it.alloc(Cell('iter', bi('iterator'), list(reversed(it.to_items(x, node)))))


@model('builtins.zip', 'itertools.izip')
def m_zip(it, args, kwargs, node):
    return it.alloc(Cell('gen', bi('generator'), ('zip', [it.norm(a) for a in args])))


@model('itertools.chain')
def m_chain(it, args, kwargs, node):
    return it.alloc(Cell('gen', bi('generator'), ('chain', [it.norm(a) for a in args])))


@model('itertools.chain.from_iterable')
def m_chain2(it, args, kwargs, node):
    return it.alloc(Cell('gen', bi('generator'), ('chain', it.to_items(arg(it, args, 0, node)))))


@model('builtins.enumerate')
def m_enumerate(it, args, kwargs, node):
    st = it.norm(kwargs.get('start', args[1] if len(args) > 1 else C(0)))
    return it.alloc(Cell('gen', bi('generator'), ('enumerate', arg(it, args, 0, node),
                                                  cval(st) if st.op == 'const' else st)))


@model('builtins.map')
def m_map(it, args, kwargs, node):
    return it.alloc(Cell('gen', bi('generator'), ('map', it.norm(args[0]), [it.norm(a) for a in args[1:]])))


@model('builtins.filter')
def m_filter(it, args, kwargs, node):
    return it.alloc(Cell('gen', bi('generator'), ('filter', it.norm(args[0]), it.norm(args[1]))))


@model('builtins.range')
def m_range(it, args, kwargs, node):
    vs = []
    for a in args:
        i = it.index_of(a)
        if i is None:
            if it.norm(a).op == 'len':
                i = len(it.materialise(it.norm(a).args[0], node))
            else:
                it.imprecise('range of unknown bounds')
                return None
        vs.append(i)
    r = range(*vs)
    if len(r) > 300:
        raise PathAbort('loop bound')
    return tup(*[C(i) for i in r])


def minmax(pick):
    def m(it, args, kwargs, node):
        items = it.to_items(args[0], node) if len(args) == 1 else [it.norm(a) for a in args]
        if not items:
            if 'default' in kwargs:
                return kwargs['default']
            it.raise_(bi('ValueError'), node)
        if 'key' in kwargs:
            return None
        best = items[0]
        for x in items[1:]:
            x = it.norm(x)
            less = it.truth(it.cmp_lt(x, it.norm(best), node)) if pick == 'min' else it.truth(it.cmp_lt(it.norm(best), x, node))
            if less:
                best = x
        return best
    return m


MODELS['builtins.min'] = minmax('min')
MODELS['builtins.max'] = minmax('max')


@model('builtins.sum')
def m_sum(it, args, kwargs, node):
    tot = it.norm(args[1]) if len(args) > 1 else C(0)
    for x in it.to_items(args[0], node):
        tot = it.binop('+', tot, x, node)
    return tot


@model('builtins.print')
def m_print(it, args, kwargs, node):
    it.event('print', args=args)
    return NONE


@model('builtins.id')
def m_id(it, args, kwargs, node):
    return T('id', it.norm(args[0]))


@model('builtins.vars')
def m_vars(it, args, kwargs, node):
    if len(args) == 1:
        return it.get_attr(it.norm(args[0]), '__dict__')
    it.imprecise('vars()')
    return None


@model('warnings.warn')
def m_warn(it, args, kwargs, node):
    it.event('warn', args=args, kwargs=sorted(kwargs.items()))
    return NONE


@model('functools.wraps')
def m_wraps(it, args, kwargs, node):
    return T('wrapsdeco', it.norm(args[0]))


@model('functools.partial')
def m_partial(it, args, kwargs, node):
    pos, kw = it.freeze_call([it.norm(a) for a in args[1:]], kwargs)
    return T('partial', it.norm(args[0]), pos, kw)


@model('contextlib.contextmanager')
def m_ctx(it, args, kwargs, node):
    return it.alloc(Cell('cmfactory', None, it.norm(args[0])))


@model('contextlib.suppress')
def m_suppress(it, args, kwargs, node):
    return T('suppress', *[it.norm(a) for a in args])


@model('collections.namedtuple', 'typing.NamedTuple')
def m_namedtuple(it, args, kwargs, node):
    f = it.norm(args[1])
    if f.op == 'const':
        fields = cval(f).replace(',', ' ').split()
    else:
        fields = []
        for x in it.to_items(f):
            v = it.val_eq(x)
            if v is None:
                return None
            fields.append(cval(v))
    from .interp import ClassData
    nm = it.val_eq(args[0])
    nm = cval(nm) if nm is not None else 'Tuple'
    cell = Cell('class', None, ClassData(nm, 'namedtuple.' + nm, [bi('tuple')],
                                         {'_fields': tup(*[C(f) for f in fields])}, None, 'namedtuple'))
    cell.extra = {'fields': fields, 'defaults': kwargs.get('defaults')}
    return it.alloc(cell)


@model('six.with_metaclass')
def m_withmeta(it, args, kwargs, node):
    return T('withmeta', it.norm(args[0]), tuple(it.norm(a) for a in args[1:]))


@model('six.iteritems')
def m_iteritems(it, args, kwargs, node):
    d = arg(it, args, 0, node)
    return it.call(it.get_attr(d, 'items', node), [], {}, node)


@model('six.itervalues')
def m_itervalues(it, args, kwargs, node):
    d = arg(it, args, 0, node)
    return it.call(it.get_attr(d, 'values', node), [], {}, node)


@model('six.iterkeys')
def m_iterkeys(it, args, kwargs, node):
    d = arg(it, args, 0, node)
    return it.call(it.get_attr(d, 'keys', node), [], {}, node)


@model('copy.copy')
def m_copy(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    if x.op in ('const', 'tuple'):
        return x
    if x.op == 'ref':
        c = it.rd(x)
        if c.kind in ('list', 'set', 'dict'):
            n = Cell(c.kind, c.cls, [list(e) for e in c.data] if c.kind == 'dict' else list(c.data), dict(c.attrs))
            return it.alloc(n)
        if c.kind in ('class', 'func'):
            return x
    return None


@model('copy.deepcopy')
def m_deepcopy(it, args, kwargs, node):
    x = arg(it, args, 0, node)
    return deepcopy(it, x)


def deepcopy(it, x):
    x = it.norm(x)
    if x.op == 'const':
        return x
    if x.op == 'tuple':
        return tup(*[deepcopy(it, i) for i in x.args])
    if x.op == 'ref':
        c = it.rd(x)
        if c.kind in ('list', 'set'):
            return it.alloc(Cell(c.kind, c.cls, [deepcopy(it, i) for i in c.data], dict(c.attrs)))
        if c.kind == 'dict':
            return it.alloc(Cell(c.kind, c.cls, [[deepcopy(it, k), deepcopy(it, v)] for k, v in c.data], dict(c.attrs)))
        if c.kind in ('class', 'func'):
            return x
    return T('call', ext('copy.deepcopy'), (x,), ())


@model('math.isnan', 'math.isinf', 'math.isfinite')
def m_isnan(it, args, kwargs, node):
    return None


for _n in ('isnan', 'isinf', 'isfinite'):
    def _m(it, args, kwargs, node, _n=_n):
        x = it.norm(args[0]) if args else NONE
        if x.op == 'const' and type(cval(x)) in (int, float, bool):
            import math
            try:
                return C(getattr(math, _n)(cval(x)))
            except OverflowError:
                it.raise_(bi('OverflowError'), node)
        return None
    model('math.' + _n)(_m)


@model('numpy.isnan')
def m_np_isnan(it, args, kwargs, node):
    if args:
        x = it.norm(args[0])
        if x is NONE or it.kind(x) in ('dict', 'set', 'obj', 'class', 'func') or it.pytype(x) in (str, dict, set):
            it.raise_(bi('TypeError'), node)
    return None


def json_shape(it, x, copy):
    """'good' when JSON certainly takes `x`, 'bad' when it certainly refuses it, else None; with the value read back."""
    x = it.norm(x)
    if x.op == 'const':
        t = type(cval(x))
        return ('good' if cval(x) is None or t in (str, int, float, bool) else 'bad'), x
    kids = None
    if x.op == 'tuple':
        kids = list(x.args)
    elif x.op == 'ref':
        c = it.rd(x)
        if c.kind == 'list':
            kids = list(c.data)
        elif c.kind == 'dict':
            st, out = 'good', []
            for k, v in c.data:
                kv = it.val_eq(k)
                if kv is None:
                    st = None if st == 'good' else st
                elif not (cval(kv) is None or type(cval(kv)) in (str, int, float, bool)):
                    st = 'bad'
                elif not isinstance(cval(kv), str):
                    st = None if st == 'good' else st
                s, w = json_shape(it, v, copy)
                if s == 'bad' or s is None and st == 'good':
                    st = s
                out.append([k, w])
            return st, it.new_dict(out) if copy and st == 'good' else None
        elif c.kind in ('obj', 'set', 'class', 'func', 'namedtuple'):
            if c.kind == 'obj' and c.cls is not None and any(
                    it.subclass(c.cls, bi(n)) is not False for n in ('str', 'int', 'float', 'list', 'tuple', 'dict')):
                return None, None
            return 'bad', None
        else:
            return None, None
    else:
        return None, None
    st, out = 'good', []
    for k in kids:
        s, w = json_shape(it, k, copy)
        if s == 'bad' or s is None and st == 'good':
            st = s
        out.append(w)
    return st, it.new_list(out) if copy and st == 'good' else None


@model('json.dumps')
def m_json_dumps(it, args, kwargs, node):
    if len(args) != 1 or kwargs:
        return None
    x = it.norm(args[0])
    try:
        st, _ = json_shape(it, x, False)
        if st == 'good':
            return T('call', ext('json.dumps'), (json_shape(it, x, True)[1],), (('json', TRUE),))
    except RecursionError:
        return None
    if st == 'bad':
        it.raise_(bi('TypeError'), node)
    return None


@model('json.loads')
def m_json_loads(it, args, kwargs, node):
    if len(args) == 1 and not kwargs:
        x = it.norm(args[0])
        if x.op == 'call' and x.args[0] is ext('json.dumps') and x.args[2] == (('json', TRUE),):
            return json_shape(it, x.args[1][0], True)[1]
    return None


# -------------------------------------------------------------- type creation
def type_new(it, meta, name, bases, ns, node):
    from .interp import ClassData
    v = it.val_eq(name)
    nm = cval(v) if v is not None else 'Cls'
    b = [it.norm(x) for x in it.to_items(bases)] or [bi('object')]
    nsd = {}
    ns = it.norm(ns)
    if ns.op == 'ref' and it.rd(ns).kind == 'dict':
        for k, x in it.rd(ns).data:
            kv = it.val_eq(k)
            nsd[cval(kv) if kv is not None else it.norm(k)] = x
    else:
        it.imprecise('class namespace')
    md = nsd.get('__module__')
    mod = cval(md) if md is not None and md.op == 'const' else 'scenario'
    cell = Cell('class', None, ClassData(nm, mod + '.' + nm, b, nsd,
                                         None if meta is bi('type') else meta, mod))
    ref = it.alloc(cell)
    for x in nsd.values():
        if isinstance(x, Term):
            it.own(x, ref)
    it.event('newclass', nm, ref, node=node)
    return ref


# ------------------------------------------------------------- bound methods
MUTATORS = {
    'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
    'difference_update', 'intersection_update', 'symmetric_difference_update', 'popitem', 'setdefault',
    '__setitem__', '__delitem__', '__iadd__', '__imul__', '__ior__', '__iand__', '__isub__', '__ixor__',
}


ARRAY_MUTATORS = {'resize', 'fill', 'put', 'itemset', 'normalize', 'setfield', 'partition', 'setflags',
                  'write', 'writelines', 'truncate'}


def container_init(it, obj, args, kwargs, node):
    k = it.rd(obj).kind
    if k == 'list':
        it.wr(obj).data = it.to_items(it.norm(args[0]), node) if args else []
    elif k == 'set':
        items = it.to_items(it.norm(args[0]), node) if args else []
        it.wr(obj).data = []
        for x in items:
            it.set_add(obj, x, node)
    elif args or kwargs:
        for key, v in pairs_of(it, args, kwargs, node):
            it.dict_set(obj, key, v, node)
    return NONE


def pairs_of(it, args, kwargs, node):
    d = it.new_dict([])
    dict_meth(it, d, 'update', list(args), dict(kwargs), node)
    return list(it.rd(d).data)


def call_bmeth(it, obj, name, args, kwargs, node=None, cls=None):
    obj = it.norm(obj)
    if obj.op == 'ref':
        c = it.rd(obj)
        k = c.kind
        if k in ('list', 'set', 'dict') and name == '__init__':
            return container_init(it, obj, args, kwargs, node)
        if k == 'list':
            return list_meth(it, obj, name, args, kwargs, node)
        if k == 'set':
            return set_meth(it, obj, name, args, kwargs, node)
        if k == 'dict':
            return dict_meth(it, obj, name, args, kwargs, node)
        if k == 'property':
            return property_meth(it, obj, name, args, kwargs, node)
        if k == 'func' and name == '__get__':
            return T('bound', obj, it.norm(args[0]))
        if k in ('gen', 'iter'):
            if name == '__next__':
                return m_next(it, [obj], {}, node)
            if name == '__iter__':
                return obj
            return NONE
        if k == 'class':
            if name == 'mro':
                return it.new_list(it.mro(obj))
            if name == '__subclasses__':
                it.imprecise('__subclasses__')
                return it.new_list([])
            if name == '__new__' and args:
                return it.raw_new(it.norm(args[0]), list(args[1:]), kwargs, node)
            if name == '__init__':
                return NONE
        return object_meth(it, obj, name, args, kwargs, node)
    if obj.op == 'const':
        return const_meth(it, obj, name, args, kwargs, node)
    if obj.op == 'tuple':
        if name == 'index':
            for i, x in enumerate(obj.args):
                if it.truth(it.cmp_eq(it.norm(x), it.norm(args[0]))):
                    return C(i)
            it.raise_(bi('ValueError'), node)
        if name == 'count':
            return C(sum(1 for x in obj.args if it.truth(it.cmp_eq(it.norm(x), it.norm(args[0])))))
        if name == '__len__':
            return C(len(obj.args))
        if name == '__iter__':
            return m_iter(it, [obj], {}, node)
        if name == '__getitem__':
            return it.get_item(obj, args[0], node)
        if name == '__contains__':
            return it.cmp_in(it.norm(args[0]), obj, node)
    return sym_meth(it, obj, name, args, kwargs, node)


def sym_meth(it, obj, name, args, kwargs, node):
    if name == '__class__':
        return T('typeof', obj)
    if name == '__setattr__':
        n = attr_term(it, args[0])
        if isinstance(n, str):
            it.event('setattr', n, obj, value=args[1], node=node)
            it.sattrs[(obj, n)] = it.norm(args[1])
            return NONE
    if name == '__getattribute__':
        return m_getattr(it, [obj, args[0]], {}, node)
    pt = it.pytype(obj)
    if pt is str and name in ('strip', 'lstrip', 'rstrip') and len(args) == 1 and not kwargs and it.norm(args[0]) is C(''):
        return obj
    if name in ('items', 'keys', 'values', 'get') and obj in it.mat and pt is dict:
        ks = it.mat[obj]
        if name == 'keys':
            return it.alloc(Cell('list', VIEW, list(ks)))
        vals = [it.get_item(obj, k, node) for k in ks]
        if name == 'values':
            return it.new_list(vals)
        if name == 'items':
            return it.new_list([tup(k, v) for k, v in zip(ks, vals)])
    if name in ('items', 'keys', 'values') and (pt is dict):
        ks = it.materialise(obj, node)
        vals = [it.get_item(obj, k, node) for k in ks]
        return it.alloc(Cell('list', bi('dict_values') if name == 'values' else VIEW, list(ks) if name == 'keys' else
                             vals if name == 'values' else [tup(k, v) for k, v in zip(ks, vals)]))
    if name == 'get' and pt is dict:
        k = it.norm(args[0])
        ov = it.sitems.get(obj)
        if ov:
            for kk, v in reversed(ov):
                if kk is k or it.truth(it.cmp_eq(kk, k)):
                    if v is None:
                        return args[1] if len(args) > 1 else NONE
                    return v
        if it.truth(it.cmp_in(k, obj, node)):
            return T('item', obj, k)
        return it.norm(args[1]) if len(args) > 1 else NONE
    if name == 'copy' and pt in (dict, list, set):
        if pt is dict:
            return it.new_dict([[k, it.get_item(obj, k, node)] for k in it.materialise(obj, node)])
        if pt is list:
            return it.new_list(it.materialise(obj, node))
        return it.new_set(it.materialise(obj, node))
    if name in MUTATORS and pt in (None, dict, list, set):
        it.mutated(obj, name, node)
        if name == 'pop' and pt is dict and args:
            k = it.norm(args[0])
            if it.truth(it.cmp_in(k, obj, node)):
                r = it.get_item(obj, k, node)
                it.event('call', name, obj, args=args, kwargs=sorted(kwargs.items()), node=node)
                it.sitems.setdefault(obj, []).append((k, None))
                return r
            if len(args) > 1:
                return it.norm(args[1])
            it.raise_(bi('KeyError'), node)
    if pt is str:
        pos, kw = it.freeze_call(args, kwargs)
        vs = [it.val_eq(obj)] + [it.val_eq(a) for a in args]
        if all(v is not None for v in vs) and not kwargs:
            return const_meth(it, vs[0], name, args, kwargs, node)
        if name in ('format',):
            return T('str', 'format', obj, *(tuple(pos) + tuple(v for _, v in kw)))
        if name == 'join':
            items = it.to_items(args[0], node)
            return T('str', 'join', obj, *items)
        t = T('mcall', obj, name, pos, kw)
        for cls in it.raise_for(t):
            it.raise_(cls, node)
        return t
    return it.opaque_mcall(obj, name, args, kwargs, node)


def const_meth(it, obj, name, args, kwargs, node):
    v = cval(obj)
    if isinstance(v, str):
        if name == 'format':
            vals = [it.norm(a) for a in args]
            if all(a.op == 'const' for a in vals) and all(it.norm(x).op == 'const' for x in kwargs.values()):
                try:
                    return C(v.format(*[cval(a) for a in vals], **{k: cval(it.norm(x)) for k, x in kwargs.items()}))
                except Exception:
                    it.raise_(bi('IndexError'), node)
            import string
            names = [f[1] for f in string.Formatter().parse(v) if f[1] is not None]
            auto = 0
            for f in names:
                base = f.split('.')[0].split('[')[0]
                if base == '':
                    if auto >= len(vals):
                        it.raise_(bi('IndexError'), node)
                    auto += 1
                elif base.isdigit():
                    if int(base) >= len(vals):
                        it.raise_(bi('IndexError'), node)
                elif base not in kwargs:
                    it.raise_(bi('KeyError'), node)
            for x in vals + list(kwargs.values()):
                str_effects(it, x, node)
            return T('str', 'format', obj, *(tuple(vals) + tuple(x for _, x in sorted(kwargs.items(), key=str))))
        if name == 'join':
            items = [it.norm(x) for x in it.to_items(args[0], node)]
            if any(x.op == 'const' and not isinstance(cval(x), str) for x in items):
                it.raise_(bi('TypeError'), node)
            if all(x.op == 'const' for x in items):
                return C(v.join(cval(x) for x in items))
            return T('str', 'join', obj, *items)
    vals = [it.val_eq(a) if it.norm(a).op != 'tuple' else None for a in args]
    kv = {k: it.val_eq(x) for k, x in kwargs.items()}
    if all(x is not None for x in vals) and all(x is not None for x in kv.values()):
        try:
            r = getattr(v, name)(*[cval(x) for x in vals], **{k: cval(x) for k, x in kv.items()})
        except Exception as e:
            it.raise_(bi(type(e).__name__), node)
        return from_py(it, r)
    if args and it.norm(args[0]).op == 'tuple' and name in ('startswith', 'endswith') and \
            all(it.norm(x).op == 'const' for x in it.norm(args[0]).args):
        return C(getattr(v, name)(tuple(cval(it.norm(x)) for x in it.norm(args[0]).args)))
    pos, kw = it.freeze_call(args, kwargs)
    return T('mcall', obj, name, pos, kw)


def str_effects(it, x, node):
    """Formatting calls the object's own __str__ (followed when it is ours)."""
    x = it.norm(x)
    if x.op == 'ref' and it.rd(x).kind == 'obj':
        m_str(it, [x], {}, node)


def from_py(it, r):
    if isinstance(r, (int, float, str, bytes, complex, type(None))):
        return C(r)
    if isinstance(r, tuple):
        return tup(*[from_py(it, x) for x in r])
    if isinstance(r, list):
        return it.new_list([from_py(it, x) for x in r])
    it.imprecise('constant folding')
    return T('unknown', repr(r))


def to_dict_entries(it, src, node):
    src = it.norm(src)
    if src.op == 'ref':
        c = it.rd(src)
        if c.kind == 'dict':
            return [list(e) for e in c.data]
        if c.kind == 'obj' and it.class_lookup(c.cls, 'keys') is not MISSING:
            keys = it.to_items(it.call(it.get_attr(src, 'keys'), [], {}, node))
            return [[k, it.get_item(src, k, node)] for k in keys]
    pt = it.pytype(src)
    if pt is dict or (src.op not in ('tuple', 'const', 'ref') and pt is None and
                      it.facts.get(T('hasattr', src, C('keys'))) is not False and src in it.mat and False):
        return [[k, it.get_item(src, k, node)] for k in it.materialise(src, node)]
    if src.op == 'const':
        it.raise_(bi('TypeError') if cval(src) is None or not isinstance(cval(src), str) else bi('ValueError'), node)
    if src.op in ('tuple',) or (src.op == 'ref' and it.rd(src).kind in ('list', 'set', 'gen', 'iter')):
        out = []
        for e in it.to_items(src, node):
            p = it.unpack(e, 2, False, node)
            out.append([p[0], p[1]])
        return out
    if pt is None:
        # unknown mapping
        it.facts.setdefault(T('ismapping', src), True)
        return [[k, it.get_item(src, k, node)] for k in it.materialise(src, node)]
    out = []
    for e in it.to_items(src, node):
        p = it.unpack(e, 2, False, node)
        out.append([p[0], p[1]])
    return out


def mutate(it, ref, name, args, kwargs, node):
    c = it.wr(ref)
    if c.owner is not None:
        it.event('mutate', name, ref, args=args, kwargs=sorted(kwargs.items()), node=node)
        it.mutated(ref, name, node)
    return c


def list_meth(it, ref, name, args, kwargs, node):
    c = it.rd(ref)
    a = [it.norm(x) for x in args]
    if name in MUTATORS or name in ('append', 'extend'):
        if name == 'append':
            mutate(it, ref, name, a, kwargs, node).data.append(arg(it, a, 0, node))
            return NONE
        if name in ('extend', '__iadd__'):
            items = it.to_items(a[0], node)
            mutate(it, ref, name, a, kwargs, node).data.extend(items)
            return NONE if name == 'extend' else ref
        if name == 'insert':
            i = it.index_of(a[0])
            w = mutate(it, ref, name, a, kwargs, node)
            if i is None:
                it.imprecise('insert at unknown index')
                i = 0
            w.data.insert(i, a[1])
            return NONE
        if name == 'remove':
            for i, x in enumerate(list(c.data)):
                if it.truth(it.cmp_eq(it.norm(x), a[0])):
                    del mutate(it, ref, name, a, kwargs, node).data[i]
                    return NONE
            it.raise_(bi('ValueError'), node)
        if name == 'pop':
            i = it.index_of(a[0]) if a else -1
            if not c.data:
                it.raise_(bi('IndexError'), node)
            if i is None:
                it.imprecise('pop of unknown index')
                i = -1
            try:
                return mutate(it, ref, name, a, kwargs, node).data.pop(i)
            except IndexError:
                it.raise_(bi('IndexError'), node)
        if name == 'clear':
            mutate(it, ref, name, a, kwargs, node).data[:] = []
            return NONE
        if name == 'reverse':
            mutate(it, ref, name, a, kwargs, node).data.reverse()
            return NONE
        if name == 'sort':
            s = m_sorted(it, [ref], kwargs, node)
            items = list(it.rd(s).data)
            mutate(it, ref, name, a, kwargs, node).data[:] = items
            return NONE
        if name == '__setitem__':
            it.set_item(ref, a[0], a[1], node, raw=True)
            return NONE
        if name == '__delitem__':
            it.del_item(ref, a[0], node, raw=True)
            return NONE
        if name == '__imul__':
            n = it.index_of(a[0])
            if n is None:
                it.imprecise('*= unknown')
                n = 1
            mutate(it, ref, name, a, kwargs, node).data[:] = c.data * n
            return ref
    if name == 'index':
        for i, x in enumerate(c.data):
            if it.truth(it.cmp_eq(it.norm(x), a[0])):
                return C(i)
        it.raise_(bi('ValueError'), node)
    if name == 'count':
        return C(sum(1 for x in c.data if it.truth(it.cmp_eq(it.norm(x), a[0]))))
    if name == 'copy':
        return it.new_list(c.data)
    if name == '__getitem__':
        return it.get_item(ref, a[0], node, raw=True)
    if name == '__len__':
        return C(len(c.data))
    if name == '__contains__':
        return it.cmp_in(a[0], ref, node)
    if name == '__iter__':
        return it.alloc(Cell('iter', bi('iterator'), list(c.data)))
    if name == '__reversed__':
        return it.alloc(Cell('iter', bi('iterator'), list(reversed(c.data))))
    if name == '__eq__':
        return it.cmp_eq(ref, a[0])
    if name in ('__add__', '__mul__'):
        return it.binop('+' if name == '__add__' else '*', ref, a[0], node, raw=True)
    if name == '__rmul__':
        return it.binop('*', ref, a[0], node, raw=True)
    return object_meth(it, ref, name, args, kwargs, node)


def find_in(it, items, x):
    for i in items:
        if it.norm(i) is x:
            return i
    for i in items:
        if it.truth(it.cmp_eq(it.norm(i), x)):
            return i
    return None


def set_meth(it, ref, name, args, kwargs, node):
    c = it.rd(ref)
    a = [it.norm(x) for x in args]
    if name == 'add':
        it.check_hashable(a[0], node)
        mutate(it, ref, name, a, kwargs, node)
        it.set_add(ref, a[0], node)
        return NONE
    if name in ('update', '__ior__'):
        mutate(it, ref, name, a, kwargs, node)
        for s in a:
            for x in it.to_items(s, node):
                it.set_add(ref, x, node)
        return NONE if name == 'update' else ref
    if name in ('remove', 'discard'):
        it.check_hashable(a[0], node)
        f = find_in(it, c.data, a[0])
        if f is None:
            if name == 'remove':
                it.raise_(bi('KeyError'), node)
            return NONE
        w = mutate(it, ref, name, a, kwargs, node)
        w.data = [x for x in w.data if x is not f]
        return NONE
    if name == 'pop':
        if not c.data:
            it.raise_(bi('KeyError'), node)
        w = mutate(it, ref, name, a, kwargs, node)
        return w.data.pop()
    if name == 'clear':
        mutate(it, ref, name, a, kwargs, node).data = []
        return NONE
    if name == 'copy':
        return it.new_set(c.data)
    if name in ('__rand__', '__ror__', '__rxor__'):
        return set_meth(it, ref, '__' + name[3:], args, kwargs, node)
    if name == '__rsub__':
        return set_meth(it, it.new_set(it.to_items(a[0], node)), '__sub__', [ref], kwargs, node)
    if name in ('union', '__or__'):
        r = it.new_set(c.data)
        for s in a:
            for x in it.to_items(s, node):
                it.set_add(r, x, node)
        return r
    neg = {'difference': False, '__sub__': False, 'intersection': True, '__and__': True,
           'difference_update': False, 'intersection_update': True, '__isub__': False, '__iand__': True}
    if name in neg:
        keep = list(c.data)
        for s in a:
            items = it.to_items(s, node)
            keep = [x for x in keep if (find_in(it, items, it.norm(x)) is not None) == neg[name]]
        if name.endswith('_update') or name.startswith('__i'):
            mutate(it, ref, name, a, kwargs, node).data = keep
            return NONE if name.endswith('_update') else ref
        return it.new_set(keep)
    if name in ('symmetric_difference', 'symmetric_difference_update', '__xor__', '__ixor__'):
        items = it.to_items(a[0], node)
        keep = [x for x in c.data if find_in(it, items, it.norm(x)) is None]
        keep += [x for x in items if find_in(it, c.data, it.norm(x)) is None]
        if name in ('symmetric_difference_update', '__ixor__'):
            mutate(it, ref, name, a, kwargs, node).data = keep
            return NONE if name.endswith('update') else ref
        return it.new_set(keep)
    if name in ('issubset', '__le__', 'issuperset', '__ge__', 'isdisjoint'):
        items = it.to_items(a[0], node)
        if name in ('issubset', '__le__'):
            return C(all(find_in(it, items, it.norm(x)) is not None for x in c.data))
        if name in ('issuperset', '__ge__'):
            return C(all(find_in(it, c.data, it.norm(x)) is not None for x in items))
        return C(not any(find_in(it, c.data, it.norm(x)) is not None for x in items))
    if name == '__contains__':
        return it.cmp_in(a[0], ref, node)
    if name == '__iter__':
        return it.alloc(Cell('iter', bi('iterator'), list(c.data)))
    if name == '__len__':
        return C(len(c.data))
    return object_meth(it, ref, name, args, kwargs, node)


def dict_meth(it, ref, name, args, kwargs, node):
    a = [it.norm(x) for x in args]
    c = it.rd(ref)
    if name in ('update', '__ior__'):
        entries = []
        for s in a:
            entries += to_dict_entries(it, s, node)
        star = kwargs.get('**')
        for k, v in kwargs.items():
            if k == '**':
                it.imprecise('unknown keyword dictionary')
                continue
            entries.append([C(k) if isinstance(k, str) else k, v])
        if c.owner is not None:
            mutate(it, ref, name, a, kwargs, node)
        w = it.wr(ref)
        own, w.owner = w.owner, None
        try:
            for k, v in entries:
                it.dict_set(ref, k, v, node)
        finally:
            it.wr(ref).owner = own
        return NONE if name == 'update' else ref
    if name == 'get':
        it.check_hashable(a[0], node)
        e = it.dict_find(ref, a[0])
        if e is not None:
            return e[1]
        return a[1] if len(a) > 1 else (it.norm(kwargs['default']) if 'default' in kwargs else NONE)
    if name == 'pop':
        it.check_hashable(a[0], node)
        e = it.dict_find(ref, a[0])
        if e is None:
            if len(a) > 1:
                return a[1]
            it.raise_(bi('KeyError'), node)
        v = e[1]
        w = mutate(it, ref, name, a, kwargs, node)
        w.data = [f for f in w.data if f[0] is not e[0]]
        return v
    if name == 'setdefault':
        e = it.dict_find(ref, a[0])
        if e is not None:
            return e[1]
        v = a[1] if len(a) > 1 else NONE
        it.dict_set(ref, a[0], v, node)
        return v
    if name == 'popitem':
        if not c.data:
            it.raise_(bi('KeyError'), node)
        w = mutate(it, ref, name, a, kwargs, node)
        return tup(*w.data.pop())
    if name == 'clear':
        mutate(it, ref, name, a, kwargs, node).data = []
        return NONE
    if name == 'copy':
        return it.new_dict(c.data, c.cls if c.cls.op == 'ext' else None)
    if name == 'keys':
        return it.alloc(Cell('list', VIEW, [k for k, _ in c.data]))
    if name == 'values':
        return it.alloc(Cell('list', bi('dict_values'), [v for _, v in c.data]))
    if name == 'items':
        return it.alloc(Cell('list', VIEW, [tup(k, v) for k, v in c.data]))
    if name in ('iteritems', 'itervalues', 'iterkeys', 'has_key'):
        it.raise_(bi('AttributeError'), node)
    if name == 'fromkeys':
        return it.new_dict([[k, a[1] if len(a) > 1 else NONE] for k in it.to_items(a[0])])
    if name == '__setitem__':
        it.dict_set(ref, a[0], a[1], node)
        return NONE
    if name == '__getitem__':
        it.check_hashable(a[0], node)
        e = it.dict_find(ref, a[0])
        if e is None:
            it.raise_(bi('KeyError'), node)
        return e[1]
    if name == '__delitem__':
        it.del_item(ref, a[0], node, raw=True)
        return NONE
    if name in ('__or__', '__ror__'):
        x, y = (ref, a[0]) if name == '__or__' else (a[0], ref)
        r = dict_meth(it, ref, 'copy', [], {}, node) if x is ref else m_dict(it, [x], {}, node)
        dict_meth(it, r, 'update', [y], {}, node)
        return r
    if name == '__contains__':
        return it.cmp_in(a[0], ref, node)
    if name == '__iter__':
        return it.alloc(Cell('iter', bi('iterator'), [k for k, _ in c.data]))
    if name == '__len__':
        return C(len(c.data))
    if name == '__reversed__':
        return it.alloc(Cell('iter', bi('iterator'), [k for k, _ in reversed(c.data)]))
    if name == 'move_to_end':
        mutate(it, ref, name, a, kwargs, node)
        return NONE
    if name == '__eq__':
        return it.cmp_eq(ref, a[0])
    return object_meth(it, ref, name, args, kwargs, node)


def property_meth(it, ref, name, args, kwargs, node):
    c = it.rd(ref)
    if name in ('setter', 'getter', 'deleter'):
        i = {'getter': 0, 'setter': 1, 'deleter': 2}[name]
        d = list(c.data)
        d[i] = it.norm(args[0])
        return it.alloc(Cell('property', bi('property'), tuple(d), dict(c.attrs)))
    if name == '__get__':
        o = it.norm(args[0])
        if o is NONE:
            return ref
        return it.call_property(ref, 0, o, [], node)
    if name == '__set__':
        return it.call_property(ref, 1, it.norm(args[0]), [args[1]], node)
    if name == '__delete__':
        return it.call_property(ref, 2, it.norm(args[0]), [], node)
    return object_meth(it, ref, name, args, kwargs, node)


def object_meth(it, obj, name, args, kwargs, node):
    if obj.op == 'ref' and it.rd(obj).extra and 'fields' in it.rd(obj).extra:
        c = it.rd(obj)
        fields = c.extra['fields']
        if name == '_asdict':
            return it.new_dict([[C(f), c.attrs[f]] for f in fields])
        if name == '_replace':
            vals = dict(c.attrs)
            vals.update(kwargs)
            return it.alloc(Cell('obj', c.cls, None, vals, extra={'fields': fields}))
        if name in ('index', 'count', '__len__', '__iter__', '__getitem__', '__contains__'):
            return call_bmeth(it, tup(*[c.attrs[f] for f in fields]), name, args, kwargs, node)
    if name in ('__init__', '__init_subclass__', '__subclasshook__'):
        return NONE
    if name == '__setattr__':
        n = attr_term(it, args[0])
        raw_setattr(it, obj, n, it.norm(args[1]), node)
        return NONE
    if name == '__getattribute__':
        return m_getattr(it, [obj, args[0]], {}, node)
    if name == '__delattr__':
        return m_delattr(it, [obj, args[0]], {}, node)
    if name == '__hash__':
        return T('id', obj)
    if name == '__eq__':
        return TRUE if it.norm(args[0]) is obj else ext('builtins.NotImplemented')
    if name == '__ne__':
        return FALSE if it.norm(args[0]) is obj else ext('builtins.NotImplemented')
    if name == '__str__' or name == '__repr__' or name == '__format__':
        return T('str', 'str', obj)
    if name == '__new__' and args:
        return it.raw_new(it.norm(args[0]), list(args[1:]), kwargs, node)
    if name == '__dir__':
        it.imprecise('__dir__')
    if name == '__reduce_ex__' or name == '__reduce__':
        it.imprecise(name)
    return it.opaque_mcall(obj, name, args, kwargs, node)


def raw_setattr(it, obj, n, v, node):
    """object.__setattr__: descriptors are honoured, overrides are not."""
    if obj.op == 'ref' and isinstance(n, str):
        c = it.rd(obj)
        if c.cls is not None and c.cls.op == 'ref':
            found, pv, data = it._inst_class_attr(obj, c.cls, n, node, c)
            if found and data is True:
                it.call_property(pv, 1, obj, [v], node)
                return
        if c.owner is not None:
            it.event('setattr', n, obj, value=v, node=node)
        w = it.wr(obj)
        if w.kind in ('class', 'module'):
            w.data.ns[n] = v
        else:
            w.attrs[n] = v
        return
    if obj.op == 'ref':
        it.event('setattr', n, obj, value=v, node=node)
        it.wr(obj).attrs[n] = v
        return
    it.event('setattr', n, obj, value=v, node=node)
    it.sattrs[(obj, n)] = v


def call_sbmeth(it, base, obj, name, args, kwargs, node):
    """A builtin method reached through super()."""
    obj = it.norm(obj)
    b = base.args[0] if base.op == 'ext' else ''
    if name == '__new__':
        # super().__new__(cls, ...)
        cls = it.norm(args[0])
        if b == 'builtins.type' or (it.is_class(cls) and bi('type') in it.mro(cls) and len(args) >= 4):
            return type_new(it, cls, args[1], args[2], args[3], node)
        rest = list(args[1:])
        if b == 'builtins.object' and False:
            rest = []
        return it.raw_new(cls, rest, kwargs, node)
    if b == 'builtins.type':
        if name == '__call__':
            return it.instantiate(obj, list(args), kwargs, node)
        if name == '__setattr__':
            n = attr_term(it, args[0])
            it.event('setattr', n, obj, value=args[1], node=node)
            it.wr(obj).data.ns[n] = it.norm(args[1])
            return NONE
        if name == '__init__':
            return NONE
        if name == '__prepare__':
            return it.new_dict([])
    if obj.op == 'ref':
        c = it.rd(obj)
        if c.kind == 'list':
            if name == '__init__':
                return container_init(it, obj, args, kwargs, node)
            return list_meth(it, obj, name, args, kwargs, node)
        if c.kind == 'set':
            if name == '__init__':
                return container_init(it, obj, args, kwargs, node)
            return set_meth(it, obj, name, args, kwargs, node)
        if c.kind == 'dict':
            if name == '__init__':
                return container_init(it, obj, args, kwargs, node)
            return dict_meth(it, obj, name, args, kwargs, node)
        if name == '__init__':
            for k in it.mro(c.cls) if c.cls is not None else []:
                if k is bi('BaseException'):
                    it.wr(obj).attrs['args'] = tup(*args)
            return NONE
        if name == '__setattr__':
            raw_setattr(it, obj, attr_term(it, args[0]), it.norm(args[1]), node)
            return NONE
        if b not in ('builtins.object', 'builtins.Exception', 'builtins.ValueError', '') and not b.startswith('builtins.'):
            return it.opaque_mcall(T('super', base, obj), name, args, kwargs, node)
        return object_meth(it, obj, name, args, kwargs, node)
    return sym_meth(it, obj, name, args, kwargs, node)
