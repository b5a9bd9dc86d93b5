"""Arrays and vectors satisfy dtype, shape and length."""
from engine.explore import Scenario

# a stand-in for arrays: only what the library looks at, dtype kind and shape, is modelled
HEAD = '''
class Kind(object):
    def __init__(self, kind):
        self.kind = kind
class Arr(np.ndarray):
    def __init__(self, kind, shape):
        self.dtype = Kind(kind)
        self.shape = shape
        self.ndim = len(shape)
    def copy(self):
        return type(self)(self.dtype.kind, self.shape)
    def __len__(self):
        return self.shape[0]
    def __getitem__(self, i):
        return np.take(self, i)
wrapped = []
def array(value):
    wrapped.append(value)
    if isinstance(value, Arr):
        return Arr(value.dtype.kind, value.shape)
    return made(value)
stub('numpy.array', array)
stub('numpy.asarray', array)
class Const(np.ndarray):
    """An array with the same number everywhere."""
    def __init__(self, n, x):
        self.n = n
        self.x = x
    def __mul__(self, y):
        return Const(self.n, y if self.x == 1 else self.x * y)
    def __rmul__(self, y):
        return Const(self.n, y if self.x == 1 else self.x * y)
stub('numpy.ones', lambda n: Const(n, 1))
stub('numpy.full', lambda n, x: Const(n, x))
'''

SHAPES = [
    ('any', 'None', 'True'),
    ('flat', "('*',)", 'nd == 1'),
    ('default', '', 'nd == 1'),
    ('fixed', '(3,)', 'nd == 1 and s[0] == 3'),
    ('none', '()', 'nd == 0'),
    ('table', "('*', 3)", 'nd == 2 and s[1] == 3'),
    ('sized', '(d, m)', 'nd == 2 and s[0] == d and s[1] == m'),
    ('two', "{('*',), (2, 2)}", 'nd == 1 or nd == 2 and s[0] == 2 and s[1] == 2'),
    ('sets', "{(d, '*'), ('*', m)}", 'nd == 2 and (s[0] == d or s[1] == m)'),
    ('cube', "(d, '*', 4)", 'nd == 3 and s[0] == d and s[2] == 4'),
]

DTYPES = [('', 'uif'), ('float', 'f'), ('int', 'ui'), ('bool', 'b'), ('complex', 'c'), ('(float, int)', 'fui'),
          ('(bool, complex)', 'bc'), ('[int, bool, float]', 'uibf')]

NAMES = {'zero': (0, 0, 0), 'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), '-x': (-1, 0, 0), '-y': (0, -1, 0),
         '-z': (0, 0, -1), 'east': (1, 0, 0), 'west': (-1, 0, 0), 'north': (0, 1, 0), 'south': (0, -1, 0),
         'up': (0, 0, 1), 'down': (0, 0, -1)}
FLAT = {k: v[:2] for k, v in NAMES.items() if k not in ('z', '-z', 'up', 'down')}
OTHER = ['', 'xx', '--x', '+x', '-', '-up', '-east', ' x', 'x ', 'w', 'e', 'n', 's', 'left', '0', '-zero', 'xy', 'UP DOWN',
         'northeast', 'shape']

VECS = '''
lengths = []
class Vec(Arr):
    zero = False
    def copy(self):
        c = type(self).__new__(type(self))
        c.dtype, c.shape, c.ndim, c.source = self.dtype, self.shape, self.ndim, self
        c.zero = self.zero
        return c
    def get(self):
        return 1
    def put(self, value):
        if self.zero:
            raise ZeroDivisionError('no length')
        lengths.append((self, value))
    length = property(get, put)
def start(self, value, ndim, n, base):
    wrapped.append(value)
    self.dtype = Kind('f')
    self.ndim = ndim
    self.source = None
    if isinstance(value, (list, tuple)):
        count = len(value)
    else:
        count = value.shape[0]
    if ndim == 1:
        self.shape = (count,)
    else:
        self.shape = (count, n)
    self.zero = isinstance(value, Arr) and value.dtype.kind == 'zero'
class V3(Vec):
    def __init__(self, value):
        start(self, value, 1, 3, self)
class V2(Vec):
    def __init__(self, value):
        start(self, value, 1, 2, self)
class V3s(Vec):
    def __init__(self, value):
        start(self, value, 2, 3, self)
class V2s(Vec):
    def __init__(self, value):
        start(self, value, 2, 2, self)
stub('vectormath.Vector3', V3)
stub('vectormath.Vector2', V2)
stub('vectormath.Vector3Array', V3s)
stub('vectormath.Vector2Array', V2s)
class H(HasProperties):
    pass
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 500)
        S.append(Scenario(name, HEAD + src, **k))

    for name, shape, good in SHAPES:
        for nd in (0, 1, 2, 3):
            add('shape-%s-%d' % (name, nd), '''
d, m = sym('d', int), sym('m', int)
nd = %d
s = tuple([sym('s' + str(i), int) for i in range(nd)])
class H(HasProperties):
    pass
coerce = pick(True, False)
p = Array('d'%s, coerce=coerce)
p.name = 'field'
a = Arr(pick('f', 'i'), s)
r = outcome(p.validate(pick(None, H()), a))
if r.ok:
    must(%s, 'an accepted array has a declared shape')
    must(r.value.shape == s, 'an accepted array has a declared shape')
    if not coerce:
        must(r.value is a, 'without coercion the array is kept')
    else:
        must(len(wrapped) == 1 and wrapped[0] is a, 'the array is converted')
else:
    must(not (%s), 'an array of a declared shape is accepted')
    must(isinstance(r.error, ValidationError), 'another shape is a validation error')
''' % (nd, ', shape=' + shape if shape else '', good, good))
    for i, (dt, kinds) in enumerate(DTYPES):
        add('dtype-%d' % i, '''
p = Array('d'%s, shape=pick(None, ('*',)), coerce=pick(True, False))
p.name = 'field'
class H(HasProperties):
    pass
k = pick('b', 'i', 'u', 'f', 'c', 'O', 'S', 'U', 'V', 'm', 'M')
a = Arr(k, (sym('n', int),))
r = outcome(p.validate(pick(None, H()), a))
if k in %r:
    must(r.ok and r.value.dtype.kind == k, 'an array of an allowed type is accepted')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'an array of another type is a validation error')
''' % (', dtype=' + dt if dt else '', kinds))
    add('inputs', '''
p = Array('d', shape=('*', 2), coerce=pick(True, False))
p.name = 'field'
class H(HasProperties):
    pass
h = pick(None, H())
W = fn('W', TypeError, OverflowError, ValueError)
def made(value):
    W()
    return out
out = pick(Arr('f', (sym('n', int), 2)), Arr('f', (2,)), Arr('O', (sym('n', int), 2)), Arr('O', (3,)))
v = pick([[1, 2]], ((1, 2), (3, 4)), [], [sym('e')], sym('x'))
if not isinstance(v, (list, tuple)):
    assume(v is not None and not isinstance(v, np.ndarray))
r = outcome(p.validate(h, v))
if not isinstance(v, (list, tuple)) or not p.coerce:
    must(not r.ok and isinstance(r.error, ValidationError), 'a value that is no array is a validation error')
    must(len(wrapped) == 0, 'a value that is no array is not converted')
else:
    must(len(wrapped) == 1 and wrapped[0] is v, 'a list is converted')
    w = outcome(W())
    if not w.ok:
        must(not r.ok, 'a list that is no array is refused')
        if not isinstance(w.error, ValueError):
            must(isinstance(r.error, ValidationError), 'a list that is no array is a validation error')
    elif out.dtype.kind == 'f' and out.ndim == 2:
        must(r.ok and r.value is out, 'the converted array is kept')
    else:
        must(not r.ok and isinstance(r.error, ValidationError), 'what was converted is checked')
''')
    add('wrapper', '''
class Own(np.ndarray):
    pass
class P(Array):
    @property
    def wrapper(self):
        return W
class Mine(Arr):
    def __init__(self, value):
        self.dtype = Kind('f')
        self.shape = value.shape
        self.ndim = 1
W = pick(lambda x: x, lambda x: [1], lambda x: None, Mine)
p = P('d')
p.name = 'field'
a = Arr('f', (3,))
r = outcome(p.validate(None, a))
w = p.wrapper
if w is Mine:
    must(r.ok and type(r.value) is Mine, 'values of the wrapper class are accepted')
elif w(a) is a:
    must(r.ok and r.value is a, 'arrays are accepted')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'what is no array after conversion is refused')
''')
    # -------------------------------------------------------------- vectors
    for cls, n, many in (('Vector3', 3, False), ('Vector2', 2, False), ('Vector3Array', 3, True), ('Vector2Array', 2, True)):
        table = NAMES if n == 3 else FLAT
        stub = {'Vector3': 'V3', 'Vector2': 'V2', 'Vector3Array': 'V3s', 'Vector2Array': 'V2s'}[cls]
        add('names-' + cls, VECS + '''
p = %s('d')
p.name = 'field'
name = pick(*%r)
v = %s
seen = list(v) if isinstance(v, list) else v
r = outcome(p.validate(pick(None, H()), v))
must(r.ok and type(r.value) is %s, 'a documented direction is accepted')
must(len(wrapped) == 1, 'one vector is made')
got = wrapped[0]%s
want = %r[name.lower()]
must(len(got) == len(want), 'a direction is the documented unit vector')
for i in range(len(want)):
    must(got[i] == want[i], 'a direction is the documented unit vector')
must(v == seen, 'the value given stays as it was')
must(len(lengths) == 0, 'a vector without declared length is not scaled')
''' % (cls, sorted(table) + sorted(k.upper() for k in table) + sorted(k.title() for k in table),
            '[[7] * %d, name]' % n if many else 'name', stub, '[1]' if many else '', table), paths=900)
        bad = OTHER + sorted(set(NAMES) - set(table)) + [k.upper() for k in sorted(set(NAMES) - set(table))]
        add('other-names-' + cls, VECS + '''
p = %s('d')
p.name = 'field'
name = pick(sym('x', str), *%r)
if name not in %r:
    assume(name.upper() not in %r)
r = outcome(p.validate(pick(None, H()), %s))
must(not r.ok and isinstance(r.error, ValidationError), 'another name is a validation error')
must(len(wrapped) == 0, 'no vector is made')
''' % (cls, bad, bad, sorted(k.upper() for k in NAMES),
       'pick([name], [[7] * %d, name], (name,), [name, [7] * %d], ["x", name])' % (n, n) if many else 'name'), paths=900)
        add('no-vector-' + cls, VECS + '''
p = %s('d', coerce=pick(True, False), **pick({}, {'length': 2.0}))
p.name = 'field'
x = sym('x')
assume(x is not None and not isinstance(x, (list, tuple, str, np.ndarray)))
x = pick(x, 3, {'a': 1}, {1, 2}, object())
r = outcome(p.validate(pick(None, H()), x))
must(not r.ok and isinstance(r.error, ValidationError), 'a value that is no array is a validation error')
must(len(wrapped) == 0 and len(lengths) == 0, 'a value that is no array is not converted')
''' % cls)
        shape = '(cnt, %d)' % n if many else '(cnt,)'
        add('shape-' + cls, VECS + '''
p = %s('d')
p.name = 'field'
cnt = sym('cnt', int)
a = pick(Arr(pick('f', 'i'), %s), [1] * pick(1, 2, 3, 4, 5))
r = outcome(p.validate(pick(None, H()), a))
must(len(wrapped) == 1, 'one vector is made')
cnt = a.shape[0] if isinstance(a, Arr) else len(a)
if %s:
    must(r.ok and type(r.value) is %s, 'vectors of the right size are accepted')
    must(r.value.shape == %s, 'vectors of the right size are accepted')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'vectors of another size are refused')
''' % (cls, shape, 'True' if many else 'cnt == %d' % n, stub, shape), paths=900)
        add('uncoerced-' + cls, VECS + '''
p = %s('d', coerce=False)
p.name = 'field'
vec = %s(%s)
how = pick('vector', 'other size', 'other type', 'array', 'list', 'name')
if how == 'other size':
    vec.shape = pick((4,), (1,), (), (2, 5), (1, 1), (2, 3, 3), (3, 3, 2))
    vec.ndim = len(vec.shape)
if how == 'other type':
    vec.dtype = Kind(pick('i', 'c', 'O', 'b', 'u'))
if how == 'array':
    vec = Arr('f', vec.shape)
if how == 'list':
    vec = %s
if how == 'name':
    vec = %s
r = outcome(p.validate(pick(None, H()), vec))
if how == 'vector':
    must(r.ok and r.value is vec, 'a vector is kept')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'what is no vector of the right size and type is refused')
''' % (cls, stub, '[[1] * %d] * 2' % n if many else '[1] * %d' % n,
            '[[1.5] * %d]' % n if many else '[1.5] * %d' % n, '["x"]' if many else '"x"'))
        if many:
            add('declared-' + cls, VECS + '''
d = sym('d', int)
p = %s('d', shape=pick((d, %d), {(d, %d), (5, %d)}))
p.name = 'field'
cnt = sym('cnt', int)
r = outcome(p.validate(pick(None, H()), Arr('f', (cnt, %d))))
good = cnt == d or len(p.shape) == 2 and cnt == 5
if good:
    must(r.ok, 'vectors of a declared shape are accepted')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'vectors of another shape are refused')
''' % (cls, n, n, n, n))
        add('length-' + cls, VECS + '''
L = sym('L', float)
assume(L > 0)
p = %s('d', length=L, coerce=pick(True, False))
must(p.length == L, 'the length is kept')
p.name = 'field'
zero = pick(True, False)
cnt = sym('cnt', int)
if p.coerce:
    a = Arr('zero' if zero else 'f', %s)
    %s
else:
    a = %s(%s)
    a.zero = zero
r = outcome(p.validate(pick(None, H()), a))
if zero:
    must(not r.ok and isinstance(r.error, ValidationError), 'a vector without direction is a validation error')
    must(isinstance(r.error, ZeroDivisionError), 'a vector without direction is a zero division, too')
else:
    must(r.ok and type(r.value) is %s, 'a vector is accepted')
    must(len(lengths) == 1 and lengths[0][0] is r.value, 'the vector that is kept is scaled')
    must(r.value is not a, 'the vector given is not scaled')
    must(%s, 'a vector is scaled to the declared length')
''' % (cls, shape, 'pass' if many else 'assume(cnt == %d)' % n, stub, '[[1] * %d] * 2' % n if many else '[1] * %d' % n, stub,
       'isinstance(lengths[0][1], Const) and lengths[0][1].n == r.value.shape[0] and lengths[0][1].x == L'
       if many else 'lengths[0][1] == L'))
    add('stored', VECS + '''
class K(HasProperties):
    v = Vector3('d', length=2.0)
    w = Vector2Array('d', length=3.0)
    a = Array('d', shape=(2,), dtype=int)
k = K()
k.v = 'up'
must(type(k.v) is V3 and len(lengths) == 1 and lengths[0][0] is k.v, 'the scaled vector is stored')
r = outcome(setattr(k, 'v', Arr('zero', (3,))))
must(not r.ok and isinstance(r.error, ValidationError), 'a vector without direction is a validation error')
must(len(lengths) == 1, 'nothing is scaled')
r = outcome(setattr(k, 'a', Arr('f', (2,))))
must(not r.ok and isinstance(r.error, ValidationError) and k.a is None, 'an array of another type is a validation error')
k.a = Arr('u', (2,))
must(k.a.dtype.kind == 'u', 'an array of an allowed type is accepted')
k._backend['a'] = Arr('u', (3,))
r = outcome(K._props['a'].assert_valid(k))
must(not r.ok and isinstance(r.error, ValidationError), 'a stored array of another shape is invalid')
''')
    return S
