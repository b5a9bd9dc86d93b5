"""Abstract values.

Every abstract value is an interned `Term`: a provenance expression over the
inputs of a scenario.  Two values with the same provenance are the same Term
object, so equality of values is identity of terms (value numbering).

ops:
  const(type, value)          a literal
  tuple(items...)             a tuple whose items are known
  ref(addr)                   an object allocated on the analysed path (see Cell)
  ext(dotted)                 a name of another library or a builtin
  sym(name)                   an unknown input of the scenario
  bound(func, self), super(cls, self)
  attr(x, name), item(x, k), mcall(x, meth, args, kwargs), call(f, args, kwargs)
  op(...), not(x), is/eq/lt/in(a, b), typeof(x) ...       derived values
"""

_TABLE = {}


class Term(object):
    __slots__ = ('op', 'args', 'h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __lt__(self, other):            # only for deterministic ordering
        return skey(self) < skey(other)

    def __reduce__(self):
        return (T, (self.op,) + self.args)


def T(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.h = hash(key)
        _TABLE[key] = t
    return t


def C(v):
    return T('const', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


def ext(name):
    return T('ext', name)


def bi(name):
    return T('ext', 'builtins.' + name)


def tup(*items):
    return T('tuple', *items)


def skey(t):
    if isinstance(t, Term):
        return '%s(%s)' % (t.op, ','.join(skey(a) for a in t.args))
    if isinstance(t, tuple):
        return '(' + ','.join(skey(a) for a in t) + ')'
    return repr(t)


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if depth > 7:
        return '...'
    d = depth + 1
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[1])
    if o == 'sym':
        return a[0]
    if o == 'ext':
        return a[0].replace('builtins.', '')
    if o == 'tuple':
        return '(' + ', '.join(show(x, d) for x in a) + ')'
    if o == 'ref':
        return '<obj%s>' % (a[0],)
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o in ('mcall', 'call'):
        if o == 'mcall':
            head = '%s.%s' % (show(a[0], d), a[1])
            pos, kw = a[2], a[3]
        else:
            head = show(a[0], d)
            pos, kw = a[1], a[2]
        parts = [show(x, d) for x in pos] + ['%s=%s' % (k, show(v, d)) for k, v in kw]
        return '%s(%s)' % (head, ', '.join(parts))
    if o == 'not':
        return 'not ' + show(a[0], d)
    if o in ('is', 'eq', 'lt', 'in'):
        s = {'is': 'is', 'eq': '==', 'lt': '<', 'in': 'in'}[o]
        return '%s %s %s' % (show(a[0], d), s, show(a[1], d))
    if o == 'isinst':
        return 'isinstance(%s, %s)' % (show(a[0], d), show(a[1], d))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


def leaves(t, out=None):
    """Symbols a term is built from."""
    if out is None:
        out = set()
    if isinstance(t, tuple):
        for x in t:
            leaves(x, out)
    elif isinstance(t, Term):
        if t.op == 'sym' or t.op == 'ref':
            out.add(t)
        elif t.op in ('const', 'ext'):
            pass
        else:
            for x in t.args:
                leaves(x, out)
    return out


def contains(t, sub):
    if t is sub:
        return True
    if isinstance(t, tuple):
        return any(contains(x, sub) for x in t)
    if isinstance(t, Term):
        return any(contains(x, sub) for x in t.args)
    return False
