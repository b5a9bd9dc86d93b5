"""Equality compares class and every property, and never fails."""
from engine.explore import Scenario
from .c14 import TYPES

HEAD = '''
class In(HasProperties):
    v = Property('d', required=False)
class Foreign(object):
    pass
def get(self):
    return None
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 300)
        S.append(Scenario(name, src, **k))

    for name, make in TYPES:
        if name == 'Renamed':
            continue
        add('unrelated-' + name, HEAD + '''
def any_value(n):
    return pick(sym(n), sym(n + 'i', int), sym(n + 'f', float), sym(n + 's', str), sym(n + 'a', np.ndarray), In(),
                object(), [sym(n + 'e')], (sym(n + 'e'), sym(n + 'g')), {sym(n + 'k', str)}, {'k': sym(n + 'e')}, [], {})
p = %s
a, b = any_value('a'), any_value('b')
assume(a is not None and b is not None)
r = outcome(p.equal(a, b))
must(r.ok, 'values of unrelated types are different, not refused')
must(outcome(bool(r.value)).ok, 'the answer is a truth value')
''' % (make % ''), hostile=True, paths=900)
    # ------------------------------------------------------------ instances
    PROP = '''
asked = []
answer = {}
class P(Property):
    def equal(self, value_a, value_b):
        asked.append((value_a, value_b))
        return E(value_a, value_b)
E = fn('E')
'''
    add('instances', PROP + '''
class K(HasProperties):
    x = P('d', required=False)
    y = P('d', required=False)
    z = Renamed('x')
class Sub(K):
    pass
class Other(HasProperties):
    x = P('d', required=False)
    y = P('d', required=False)
k = K()
j = pick(K(), Sub(), Other())
vals = []
for o in (k, j):
    for n in ('x', 'y'):
        v = pick(None, sym(n + str(len(vals))))
        assume(v is not undefined)
        vals.append(v)
        o._backend[n] = v
r = outcome(properties.equal(k, j))
must(r.ok, 'comparing instances answers')
good = type(j) is K
for i in (0, 1):
    a, b = vals[i], vals[i + 2]
    if a is None and b is None:
        continue
    if a is None or b is None:
        good = False
    elif not E(a, b):
        good = False
must(bool(r.value) == good, 'equal exactly when the class and every property agree')
must(len(warnings_issued()) == 0, 'comparing does not go through renamed properties')
for a, b in asked:
    must(a is not None and b is not None, 'properties never compare None')
must(properties.equal(k, k), 'an instance equals itself')
must(bool(properties.equal(k, j)) == good, 'asking again answers the same')
must(bool(properties.equal(j, k)) == good or type(j) is K, 'the order of instances of different classes does not matter')
''')
    add('instances-read', PROP + '''
class K(HasProperties):
    x = P('d', required=False)
    @properties.properties.basic.Property('d') if False else property
    def plain(self):
        return 1
V = fn('V')
class D(HasProperties):
    a = Property('d', required=False)
    @P('d')
    def dyn(self):
        return V(self.a)
k, j = D(), D()
X, Y = sym('x'), sym('y')
assume(X is not None and X is not undefined and Y is not None and Y is not undefined)
k.a, j.a = X, Y
va, vb = V(X), V(Y)
assume(va is not undefined and vb is not undefined)
r = properties.equal(k, j)
good = X == Y
if va is None and vb is None:
    pass
elif va is None or vb is None:
    good = False
elif not E(va, vb):
    good = False
must(bool(r) == good, 'dynamic properties are compared by value')
''')
    add('gettable', PROP + '''
class G(GettableProperty):
    def equal(self, value_a, value_b):
        return E(value_a, value_b)
class K(HasProperties):
    x = G('d')
k, j = K(), K()
X, Y = sym('x'), sym('y')
assume(X is not None and X is not undefined and Y is not None and Y is not undefined)
k._backend['x'] = X
j._backend['x'] = Y
must(bool(properties.equal(k, j)) == bool(E(X, Y)), 'properties that are only gettable are compared')
''')
    add('others', '''
class K(HasProperties):
    x = Property('d', required=False)
class Eq(object):
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return self.v
a = pick(sym('a'), K(), Eq(sym('e')))
b = pick(sym('b'), object(), K(), Eq(sym('f')))
assume(not (isinstance(a, HasProperties) and isinstance(b, HasProperties)))
if pick(True, False):
    a, b = b, a
r = outcome(properties.equal(a, b))
must(r.ok, 'comparing other values answers')
must(bool(r.value) == bool(a == b), 'other values are compared with ==')
''')
    add('identity', '''
class P(Property):
    def equal(self, value_a, value_b):
        return pick(True, False)
class K(HasProperties):
    x = P('d', required=False)
    y = Float('d', required=False)
k = K()
X = sym('x')
assume(X is not None and X is not undefined)
k._backend['x'] = X
k._backend['y'] = pick(None, float('nan'), 1.0)
must(properties.equal(k, k) is True, 'an instance equals itself')
must(Instance('d', K).equal(k, k) is True, 'an instance equals itself')
must(Instance('d', K).equal(k, K()) is False, 'one unset and one set property differ')
must(properties.equal(K(), K()) is True, 'unset properties are equal')
''')
    add('nested', PROP + '''
class In(HasProperties):
    v = P('d', required=False)
class In2(In):
    pass
class K(HasProperties):
    a = Instance('d', In, required=False)
    b = Instance('d', In, required=False)
    c = List('d', In, required=False)
V, W = sym('v'), sym('w')
assume(V is not None and V is not undefined and W is not None and W is not undefined)
i = In(v=V)
how = pick('same twice', 'listed', 'class', 'shared')
k, j = K(), K()
if how == 'same twice':
    k.a, k.b = i, i
    j.a, j.b = In(v=V), In(v=W)
    good = E(V, V) and E(V, W)
elif how == 'listed':
    k.c = [i, i]
    j.c = [In(v=V), In(v=W)]
    good = E(V, V) and E(V, W)
elif how == 'class':
    k.a = i
    j.a = In2(v=V)
    good = False
else:
    k.a = i
    j.a = i
    k.b = In(v=W)
    j.b = i
    good = E(W, V)
must(bool(properties.equal(k, j)) == bool(good), 'instances held are compared the same way')
must(bool(properties.equal(k, j)) == bool(good), 'asking again answers the same')
''')
    add('recursion', '''
class A(HasProperties):
    v = Property('d', required=False)
A._props['next'] = Instance('d', A, required=False)
A._props['next'].name = 'next'
A.next = A._props['next'].get_property()
a, b, c = A(), A(), A()
how = pick('self', 'cycle', 'chain', 'cross')
if how == 'self':
    a.next, b.next = a, b
elif how == 'cycle':
    a.next, b.next = b, a
elif how == 'chain':
    a.next, b.next = c, c
    if pick(True, False):
        c.next = pick(a, c)
else:
    a.next = b
    b.next = b
r = outcome(properties.equal(a, b))
must(r.ok, 'instances that contain themselves are compared')
if how == 'chain':
    must(r.value is True, 'instances holding the same object are equal')
s = outcome(properties.equal(a, b))
must(s.ok and bool(s.value) == bool(r.value), 'asking again answers the same')
must(properties.equal(a, a) is True, 'an instance equals itself')
d, e = A(), A()
must(properties.equal(d, e) is True, 'the comparison ended')
d.v = sym('v')
''', ends=True)
    add('failure', '''
class P(Property):
    def equal(self, value_a, value_b):
        if bad:
            raise R
        return True
bad = True
R = pick(ValueError('x'), TypeError('x'), KeyError('x'), KeyboardInterrupt())
class K(HasProperties):
    x = P('d', required=False)
k, j = K(), K()
k._backend['x'] = 1
j._backend['x'] = 1
r = outcome(properties.equal(k, j))
must(not r.ok and r.error is R, 'a failing comparison is reported')
bad = False
must(properties.equal(k, j) is True, 'a failed comparison leaves nothing behind')
must(properties.equal(j, k) is True, 'a failed comparison leaves nothing behind')
''')
    # ------------------------------------------------------------ leaf rules
    for name, make in (('Property', "Property('d')"), ('Integer', "Integer('d')"), ('String', "String('d')"),
                       ('GettableProperty', "GettableProperty('d')"), ('DateTime', "DateTime('d')"),
                       ('Uuid', "Uuid('d')"), ('Color', "Color('d')"), ('URL', "properties.extras.URL('d')"),
                       ('StringChoice', "StringChoice('d', choices=['a', 'b'])")):
        add('rule-' + name, '''
p = %s
a = pick(sym('a'), 1, 'x', (1, 2))
b = pick(sym('b'), 1, 2, 'x', (1, 2), (1, 3))
must(bool(p.equal(a, b)) == bool(a == b), 'values are compared with ==')
must(bool(p.equal(a, a)), 'a value equals itself')
''' % make)
    for name, make in (('Boolean', "Boolean('d')"), ('File', "File('d')"),
                       ('ImagePNG', "ImagePNG('d')")):
        add('rule-' + name, '''
p = %s
a = pick(sym('a'), True, False)
b = pick(sym('b'), True, False)
must(bool(p.equal(a, b)) == (a is b), 'equal means identical')
must(p.equal(a, a), 'a value equals itself')
must(p.equal(True, False) is False, 'different values differ')
''' % make)
    add('rule-Float', '''
p = Float('d')
BIG = BIGNUM
nan, inf = float('nan'), float('inf')
for a, b, want in ((1.0, 1.0, True), (1.0, 1.0 + 1e-10, True), (1.0 + 1e-10, 1.0, True), (1.0, 1.0 + 1e-8, False),
                   (1e300, 1e300, True), (0.0, -0.0, True), (nan, nan, True), (inf, inf, True), (-inf, -inf, True),
                   (inf, -inf, False), (-inf, inf, False), (nan, 1.0, False), (1.0, nan, False), (inf, 1.0, False),
                   (1.0, inf, False), (nan, inf, False), (1, 1.0, True), (-1.0, 1.0, False), (1.0, -1.0, False),
                   (0.0, 1e-10, True), (0.0, 1.0, False), (1.0, 0.0, False), (1.0, 'a', False), ('a', 1.0, False),
                   (1.0, BIG, False), (BIG, 1.0, False), (1.0, [], False), (1.0, object(), False),
                   (1e12, 1e12 + 1.0, False)):
    r = outcome(p.equal(a, b))
    must(r.ok and bool(r.value) == want, 'numbers are equal within the tolerance')
a, b = sym('a', float), sym('b', float)
if a == b:
    must(bool(p.equal(a, b)), 'numbers that are equal are equal')
'''.replace('BIGNUM', '1' + '0' * 400))
    add('rule-Complex', '''
p = Complex('d')
BIG = BIGNUM
nan, inf = float('nan'), float('inf')
for a, b, want in ((1j, 1j, True), (1 + 1j, 1 + 1e-10 + 1j, True), (1 + 1j, 1 + 1j + 1e-10j, True), (1j, 2j, False),
                   (1 + 1j, 2 + 1j, False), (complex(nan, 1), complex(nan, 1), True), (complex(nan, 1), 1j, False),
                   (complex(1, nan), complex(1, nan), True), (complex(1, nan), complex(2, nan), False),
                   (complex(inf, 0), complex(inf, 0), True), (complex(inf, 0), complex(-inf, 0), False),
                   (complex(0, inf), complex(0, -inf), False), (complex(inf, nan), complex(inf, nan), True),
                   (1 + 0j, 1.0, True), (1 + 0j, 1, True), (1j, 'a', False), ('a', 1j, False), (1j, object(), False),
                   (1 + 0j, BIG, False), (1j, -1j, False)):
    r = outcome(p.equal(a, b))
    must(r.ok and bool(r.value) == want, 'numbers are equal within the tolerance')
'''.replace('BIGNUM', '1' + '0' * 400))
    # ------------------------------------------------------------ containers
    ELEM = '''
class P(Property):
    class_info = 'p'
    def equal(self, value_a, value_b):
        return E(value_a, value_b)
E = fn('E')
'''
    for kind, make in (('list', 'List'), ('tuple', 'Tuple')):
        add('rule-' + kind, ELEM + '''
p = %s('d', P('d'))
A = [sym('a'), sym('b'), sym('c')]
B = [sym('d'), sym('e'), sym('f')]
n, m = pick(0, 1, 2, 3), pick(0, 1, 2, 3)
a, b = %s(A[:n]), %s(B[:m])
good = n == m
if good:
    for i in range(n):
        if not E(A[i], B[i]):
            good = False
r = outcome(p.equal(a, b))
must(r.ok and bool(r.value) == good, 'containers are equal when they have as many elements, equal in order')
must(len(a) == n and len(b) == m, 'comparing changes nothing')
''' % (make, kind, kind))
    add('rule-set', '''
class P(Property):
    def equal(self, value_a, value_b):
        return value_a %% 10 == value_b %% 10
p = Set('d', P('d'), observe_mutations=pick(True, False))
for a, b, want in ((set(), set(), True), ({1}, {1}, True), ({1}, {11}, True), ({1}, set(), False), (set(), {1}, False),
                   ({1, 2}, {2, 1}, True), ({1, 2}, {12, 11}, True), ({1, 2}, {1, 3}, False), ({1, 2}, {3, 1}, False),
                   ({1, 2, 3}, {13, 11, 12}, True), ({1, 2, 3}, {1, 2, 4}, False), ({1, 2}, {1, 2, 3}, False),
                   ({1, 2, 3}, {1, 2}, False), ({1, 11}, {1, 2}, False), ({1, 2}, {1, 11}, False),
                   ({1, 11}, {21, 31}, True), ({4, 5, 6}, {4, 5, 7}, False), ({4, 5, 6}, {7, 5, 6}, False)):
    na, nb = len(a), len(b)
    r = outcome(p.equal(a, b))
    must(r.ok and bool(r.value) == want, 'sets are equal when their elements pair up, in any order')
    must(len(a) == na and len(b) == nb, 'comparing changes nothing')
'''.replace('%%', '%'))
    add('rule-set-any', ELEM + '''
p = Set('d', P('d'))
a, b, c, d = sym('a'), sym('b'), sym('c'), sym('d')
assume(not a == b)
assume(not c == d)
x = pick({a}, {a, b})
y = pick({c}, {c, d})
r = outcome(p.equal(x, y))
must(r.ok, 'sets are compared')
if len(x) != len(y):
    must(not r.value, 'sets of different size differ')
elif len(x) == 1:
    must(bool(r.value) == bool(E(a, c)), 'sets are equal when their elements pair up')
else:
    one, two = bool(E(a, c)), bool(E(b, d))
    three, four = bool(E(a, d)), bool(E(b, c))
    if r.value:
        must(one and two or three and four, 'sets are equal when their elements pair up')
    else:
        must(not (one and two and not three and not four), 'sets are equal when their elements pair up')
        must(not (three and four and not one and not two), 'sets are equal in any order')
''')
    add('rule-dict', ELEM + '''
p = Dictionary('d', value_prop=P('d'))
a, b, c, d = sym('a'), sym('b'), sym('c'), sym('d')
x, y, good = pick(({}, {}, True), ({'k': a}, {}, False), ({}, {'k': a}, False), ({'k': a}, {'l': a}, False),
                  ({'k': a}, {'k': c}, None), ({'k': a, 'l': b}, {'k': c}, False), ({'k': a}, {'k': c, 'l': d}, False),
                  ({'k': a, 'l': b}, {'l': d, 'k': c}, None), ({'k': a, 'l': b}, {'k': c, 'm': d}, False),
                  ({'k': a, 'm': b}, {'k': c, 'l': d}, False))
n, m = len(x), len(y)
r = outcome(p.equal(x, y))
must(r.ok, 'dictionaries are compared')
if good is None:
    good = True
    for k in x:
        if not E(x[k], y[k]):
            good = False
must(bool(r.value) == good, 'dictionaries are equal when they have the same keys and equal values')
must(len(x) == n and len(y) == m, 'comparing changes nothing')
''')
    add('rule-union', ELEM + '''
E2 = fn('E2')
class Q(Property):
    class_info = 'q'
    def equal(self, value_a, value_b):
        return E2(value_a, value_b)
p = Union('d', pick((P('d'), Q('d')), (Q('d'), P('d'))))
a, b = sym('a'), sym('b')
r = outcome(p.equal(a, b))
must(r.ok and bool(r.value) == bool(E(a, b) or E2(a, b)), 'values are equal when any member says so')
''')
    add('rule-dynamic', ELEM + '''
p = properties.basic.DynamicProperty('d', lambda self: None, P('d'))
a, b = sym('a'), sym('b')
must(bool(p.equal(a, b)) == bool(E(a, b)), 'a dynamic property compares as its property does')
''')
    for name, make, base in (('Instance', "Instance('d', In)", 'HasProperties'),
                             ('Pointer', "properties.extras.Pointer('d', In)", 'properties.extras.HasUID')):
        add('rule-' + name, '''
class In(%s):
    v = Property('d', required=False)
class Sub(In):
    pass
p = %s
V, W = sym('v'), sym('w')
assume(V is not None and V is not undefined and W is not None and W is not undefined)
a = In(v=V)
b = pick(In(v=W), Sub(v=W), a, In())
ids = True
if '%s' == 'Pointer':
    a._backend['uid'] = 'one'
    if b is not a:
        b._backend['uid'] = pick('one', 'two')
    ids = b.uid == 'one'
good = b is a or type(b) is In and ids and b.v is not None and bool(V == W)
r = outcome(p.equal(a, b))
must(r.ok and bool(r.value) == good, 'instances are compared by class and properties')
x, y = pick(sym('x'), 'x'), pick(sym('y'), 'x', 'y', 3)
assume(not isinstance(x, HasProperties) and not isinstance(y, HasProperties))
must(bool(p.equal(x, y)) == bool(x == y), 'other values are compared with ==')
''' % (base, make, name))
    add('deprecated', '''
class K(HasProperties):
    x = Integer('d', required=False)
k, j = K(x=pick(1, 2)), K(x=1)
n = len(warnings_issued())
must(bool(k.equal(j)) == (k.x == 1), 'the deprecated method answers the same')
must(len(warnings_issued()) == n + 1, 'and warns')
''')
    add('stored', '''
class K(HasProperties):
    x = P_
p = 0
'''.replace('P_', "Property('d', required=False)") + '''
k = K()
a, b = sym('a', np.ndarray), sym('b', np.ndarray)
k.x = a
r = outcome(setattr(k, 'x', b))
must(r.ok, 'assigning another array works')
''', hostile=True)
    add('stored-union', '''
class E(HasProperties):
    v = Property('d', required=False)
p = Union('d', (pick(Integer('d'), Float('d'), Complex('d'), String('d'), Instance('d', E), Dictionary('d'), Set('d'),
                     Boolean('d'), Tuple('d'), List('d'), Color('d')), Array('d')))
a, b = sym('a', np.ndarray), sym('b', np.ndarray)
r = outcome(p.equal(a, b))
must(r.ok, 'arrays are compared whatever comes first')
must(outcome(bool(r.value)).ok, 'the answer is a truth value')
p = Union('d', (Dictionary('d'), List('d')))
must(outcome(p.equal([5], [5])).ok and p.equal([5], [5]), 'lists are compared whatever comes first')
''', hostile=True)
    for name, make in TYPES:
        if name in ('Array', 'Vector3', 'Vector2', 'Vector3Array', 'Vector2Array'):
            add('rule-' + name, '''
p = %s
a, b = sym('a', np.ndarray), sym('b', np.ndarray)
r = outcome(p.equal(a, b))
must(r.ok, 'arrays are compared')
must(p.equal(a, [1.0]) is False and p.equal([1.0], a) is False, 'values of different classes differ')
if r.value:
    found = False
    for args, kwargs in calls_to(np.allclose) + calls_to(np.isclose) + \\
            [c for c in calls_to(np.array_equal) if same(c[0][0], a) or same(c[0][0], b)]:
        x, y = args[0], args[1]
        if (same(x, a) or mentions(x, a)) and (same(y, b) or mentions(y, b)) or \\
                (same(x, b) or mentions(x, b)) and (same(y, a) or mentions(y, a)):
            found = True
    must(found, 'arrays are equal only after their elements were compared')
for args, kwargs in calls_to(np.allclose):
    must('equal_nan' in kwargs or not (same(args[0], a) and same(args[1], b)), 'NaN equals NaN')
''' % (make % ''), vocab=('any',))
    return S
