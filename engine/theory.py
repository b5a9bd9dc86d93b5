"""Which exceptions the operations of the language and of the libraries may raise
on unknown (hostile) values.  A rule is given only for operations that definitely
can raise on a value of the known type; everything else is taken to succeed."""
from .terms import T, Term, C, ext, bi, cval, is_const

TE, VE, OE, AE, KE, IE = (bi(n) for n in ('TypeError', 'ValueError', 'OverflowError', 'AttributeError',
                                          'KeyError', 'IndexError'))
NUMBERS = (int, float, bool, complex)
SIZED = (str, bytes, list, tuple, set, frozenset, dict)

EXT_CALLS = {
    'builtins.open': [bi('OSError'), VE],
    'datetime.datetime.strptime': [VE],
    'numpy.array': [VE], 'numpy.asarray': [VE], 'numpy.asanyarray': [VE],
    'vectormath.Vector3': [VE, TE, OE], 'vectormath.Vector2': [VE, TE, OE],
    'vectormath.Vector3Array': [VE, TE, OE], 'vectormath.Vector2Array': [VE, TE, OE],
    'urllib.parse.urlparse': [VE], 'urllib.parse.urlsplit': [VE],
    'uuid.UUID': [VE],
    'base64.b64decode': [ext('binascii.Error')],
}
EXT_METHODS = {
    ('png.Reader', 'validate_signature'): [ext('png.FormatError'), bi('EOFError')],
    ('png.Reader', 'preamble'): [ext('png.FormatError'), bi('EOFError')],
    ('png.Reader', 'read'): [ext('png.FormatError'), bi('EOFError')],
    ('numpy.ndarray', 'astype'): [VE, TE],
}
EXT_SETATTR = {'length': [bi('ZeroDivisionError')]}


def known(it, x):
    """The builtin type a value is known to have, or the name of a library class."""
    pt = it.pytype(x)
    if pt is not None:
        return pt
    for p in it.pos_types(it.norm(x)):
        for c in it.mro(p) if p.op in ('ref', 'ext') else ():
            if c.op == 'ext' and c is not bi('object'):
                return c.args[0]
            if c.op == 'ref':
                return 'repo'
    return None


def direct(x):
    """An unknown value that comes straight from the caller."""
    while x.op in ('elem', 'item'):
        x = x.args[0]
    return x.op == 'sym'


def is_array(it, x):
    return any(it.isinst(x, ext('numpy.ndarray')) is True for _ in (0,))


def sized_array(it, x):
    """An array known to have at least one dimension."""
    f = it.facts.get(it.pair('eq', T('attr', x, 'ndim'), C(0)))
    return f is False


def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x not in out:
                out.add(x)
                todo.extend(x.args)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return out


def base(x):
    while isinstance(x, Term) and x.op == 'item':
        x = x.args[0]
    return x


def same_shape(it, a, b):
    """The shapes of two arrays were compared on this path."""
    a, b = base(it.norm(a)), base(it.norm(b))
    if a is b:
        return True
    for f, v in list(it.facts.items()):
        if v is True and f.op in ('truthy', 'eq'):
            sub = subterms(f)
            if a in sub and b in sub and any(
                    s.op == 'call' and s.args[0] is ext('numpy.array_equal') or
                    s.op == 'attr' and s.args[1] == 'shape' for s in sub):
                return True
    return False


def hostile(it, _it, term):
    o = term.op
    if o == 'call':
        f = term.args[0]
        if f.op != 'ext':
            return []
        n = f.args[0]
        if n in ('builtins.int', 'builtins.float', 'builtins.complex') and term.args[1]:
            x = it.norm(term.args[1][0])
            k = known(it, x)
            if k in (bool,) or (k is int and n != 'builtins.float' and n != 'builtins.complex'):
                return []
            if k is int:
                return [OE]
            if k is float:
                return [VE, OE] if n == 'builtins.int' else []
            if k is complex:
                return [] if n == 'builtins.complex' else [TE]
            if k in (str, bytes):
                return [VE]
            if k in (list, tuple, set, dict):
                return [TE]
            if direct(x):
                return [TE, VE, OE]
            return []
        if n == 'numpy.isnan' and term.args[1]:
            x = it.norm(term.args[1][0])
            k = known(it, x)
            return [] if k in (int, float, bool, complex) else \
                [TE] if it.isinst(x, ext('numpy.ndarray')) is True else \
                [TE, VE] if direct(x) else []
        if n == 'numpy.allclose' and len(term.args[1]) >= 2:
            return [] if same_shape(it, *term.args[1][:2]) else [VE]
        return EXT_CALLS.get(n, [])
    if o == 'arrcmp':
        a, b = (it.norm(x) for x in term.args[1:])
        return [VE] if it.arrayish(a) and it.arrayish(b) and not same_shape(it, a, b) else []
    if o == 'truth':
        return [VE]         # more than one element
    if o == 'iter' or o == 'len':
        x = it.norm(term.args[0])
        if x in it.mat:
            return []
        k = known(it, x)
        if k in SIZED:
            return []
        if it.isinst(x, ext('numpy.ndarray')) is True:
            return [] if sized_array(it, x) else [TE]
        return [TE] if k is None and direct(x) else []
    if o == 'hash':
        x = it.norm(term.args[0])
        if x.op == 'tuple':
            return []
        k = known(it, x)
        if k in (list, set, dict):
            return [TE]
        if it.isinst(x, ext('numpy.ndarray')) is True:
            return [TE]
        return [TE] if k is None and direct(x) else []
    if o == 'attr':
        x, name = it.norm(term.args[0]), term.args[1]
        if known(it, x) is not None or not direct(x):
            return []
        if it.facts.get(T('hasattr', x, C(name))) is True or not isinstance(name, str):
            return []
        if name == 'close':
            return []        # every stream has it
        return [AE]
    if o == 'item':
        x = it.norm(term.args[0])
        if x.op == 'sym' and known(it, x) is None:
            return [TE]
        return []
    if o == 'op' and term.args[0] in ('-', '+', '*', '/'):
        out = []
        for x in term.args[1:]:
            x = it.norm(x)
            if direct(x) and known(it, x) not in NUMBERS and it.isinst(x, ext('numpy.ndarray')) is not True:
                out = [TE, OE]
            elif direct(x) and known(it, x) is int and any(known(it, y) is float for y in term.args[1:]):
                out = out or [OE]
        return out
    if o == 'compare':
        for x in term.args:
            x = it.norm(x)
            if direct(x) and known(it, x) not in NUMBERS + (str,):
                return [TE]
        return []
    if o == 'mcall':
        x, name = it.norm(term.args[0]), term.args[1]
        ty = it.typeof(x)
        tn = ty.args[0] if ty is not None and ty.op == 'ext' else None
        if x.op == 'call' and x.args[0].op == 'ext':
            tn = tn or x.args[0].args[0]
        return EXT_METHODS.get((tn, name), [])
    if o == 'setattr':
        x = it.norm(term.args[0])
        if isinstance(term.args[1], str):
            ty = it.typeof(x)
            if it.isinst(x, ext('numpy.ndarray')) is True:
                return EXT_SETATTR.get(term.args[1], [])
        return []
    return []
