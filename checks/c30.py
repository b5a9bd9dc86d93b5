"""Copies are rebuilt objects of the same class, with full fidelity unless asked otherwise."""
from engine.explore import Scenario

HEAD = '''
H = HasProperties
copy = properties.copy
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 500)
        S.append(Scenario(name, HEAD + src, **k))

    add('refuses', '''
class Plain(object):
    def serialize(self, **kwargs):
        return {}
    @classmethod
    def deserialize(cls, value, **kwargs):
        return cls()
class A(H):
    n = Integer('n')
x = pick(sym('x'), Plain(), A, 5, [A()], {'n': 1}, None, 'a', (A(),), Integer('i'))
assume(not isinstance(x, H))
r = outcome(copy(x, **pick({}, {'trusted': False}, {'include_class': False})))
must(not r.ok and isinstance(r.error, ValueError), 'only instances holding properties are copied')
''')
    add('route', '''
seen = []
form, result = {'form': 1}, []
class A(H):
    n = Integer('n')
    def serialize(self, **kwargs):
        seen.append(('serialize', self, dict(kwargs)))
        return form
    @classmethod
    def deserialize(cls, value, **kwargs):
        seen.append(('deserialize', cls, value, dict(kwargs)))
        return result
class B(A):
    m = Integer('m')
a = pick(A, B)(n=sym('v', int)) if pick(True, False) else B(n=1, m=2)
options = {}
for name in ('include_class', 'trusted', 'strict', 'save_dynamic', 'verbose', 'anything'):
    if pick(True, False):
        options[name] = pick(True, False) if name in ('include_class', 'trusted') else sym(name)
given = dict(options)
caller(options)
n = now()
r = outcome(copy(a, **options))
must(r.ok and r.value is result, 'a copy is what deserializing makes')
must(len(seen) == 2 and seen[0][0] == 'serialize' and seen[1][0] == 'deserialize', 'a copy is made by serializing and deserializing')
must(seen[0][1] is a, 'the instance is serialized')
must(seen[1][1] is type(a), "the instance's own class deserializes")
must(seen[1][2] is form, 'what was serialized is deserialized')
want = dict(given)
if 'include_class' not in want:
    want['include_class'] = True
if 'trusted' not in want:
    want['trusted'] = True
for kw in (seen[0][2], seen[1][3]):
    must(sorted(kw) == sorted(want), 'both directions get the same options')
    for k in want:
        must(same(kw[k], want[k]), 'class names are included and trusted unless the caller says otherwise')
untouched(a, options, since=n)
''', paths=1500)
    add('kinds', '''
class A(H):
    n = Integer('n')
class B(A):
    m = String('m')
class K(H):
    i = Integer('i')
    s = String('s')
    a = Instance('a', A)
    l = List('l', A)
    d = Dictionary('d', key_prop=String('k'), value_prop=A)
    t = Tuple('t', Integer('i'))
    u = Union('u', [Integer('i'), A])
    plain = List('p')
class K2(K):
    extra = Integer('e')
i, s = sym('i', int), sym('s', str)
assume(not isinstance(i, bool))
cls = pick(K, K2)
k = cls()
fields = pick(['i', 's'], ['a'], ['l'], ['d'], ['t', 'u'], ['plain', 'i'])
values = {'i': 3, 's': s, 'a': B(n=1, m=s), 'l': [A(n=1), B(n=2, m='x')], 'd': {'k': B(m=s)}, 't': (1, 2), 'u': B(n=5), 'plain': [1, 2]}
for f in fields:
    setattr(k, f, values[f])
if cls is K2:
    k.extra = 7
n = now()
c = copy(k)
untouched(k, since=n)
must(type(c) is cls and c is not k, 'a copy is another object of the same class')
for f in ('i', 's', 'a', 'l', 'd', 't', 'u', 'plain'):
    x, y = getattr(k, f), getattr(c, f)
    if f not in fields:
        if f not in ('l', 'd', 't', 'plain'):
            must(y is None and x is None, 'what is not set is not set in the copy')
        continue
    if f in ('a', 'u'):
        must(type(y) is type(x) and y is not x and y.n == x.n and same(y.m, x.m), 'members are copied with their class')
    elif f == 'l':
        must(y is not x and len(y) == 2 and type(y[0]) is A and type(y[1]) is B, 'members are copied with their class')
        must(y[0] is not x[0] and y[1] is not x[1] and y[0].n == 1 and y[1].n == 2 and y[1].m == 'x', 'members are copied with their values')
    elif f == 'd':
        must(y is not x and list(y) == ['k'] and type(y['k']) is B and y['k'] is not x['k'] and same(y['k'].m, s), 'members are copied')
    elif f == 'plain':
        must(y is not x and y == [1, 2], 'containers are copied')
    elif f == 't':
        must(y == x, 'values are copied')
    else:
        must(same(y, x), 'values are copied')
if cls is K2:
    must(c.extra == 7, "what the subclass adds is copied")
must(properties.equal(k, c), 'a copy equals the original')
if 'plain' in fields:
    c.plain.append(3)
    must(k.plain == [1, 2], 'changing the copy leaves the original alone')
if 'a' in fields:
    c.a.n = 99
    must(k.a.n == 1, 'changing the copy leaves the original alone')
if 'l' in fields:
    c.l[0].n = 99
    c.l.append(A())
    must(k.l[0].n == 1 and len(k.l) == 2, 'changing the copy leaves the original alone')
''')
    add('options', '''
class A(H):
    n = Integer('n')
class B(A):
    m = String('m', required=False)
class K(H):
    a = Instance('a', A)
k = K(a=B(n=1, m='x'))
how = pick('default', 'untrusted', 'nameless', 'both', 'explicit')
options = {'default': {}, 'untrusted': {'trusted': False}, 'nameless': {'include_class': False}, 'both': {'trusted': False, 'include_class': False},
           'explicit': {'trusted': True, 'include_class': True}}[how]
r = outcome(copy(k, **options))
if how in ('default', 'explicit'):
    must(r.ok and type(r.value.a) is B and r.value.a.m == 'x', 'class names are included and trusted unless the caller says otherwise')
else:
    must(r.ok and type(r.value) is K and type(r.value.a) is A and r.value.a.n == 1, 'without names or trust members get the declared class')
r = outcome(copy(k, strict=True))
must(r.ok and type(r.value.a) is B, 'options are passed on')
r = outcome(copy(k, strict=True, trusted=False))
must(not r.ok, 'options are passed on')
r = outcome(copy(K(), assert_valid=True))
must(not r.ok and isinstance(r.error, ValueError), 'options are passed on')
''')
    add('dynamic', '''
class K(H):
    n = Integer('n')
    made = []
    @Integer('twice')
    def twice(self):
        return 2 * self.n
    @twice.setter
    def twice(self, value):
        K.made.append(value)
        self.n = value
k = K(n=4)
c = copy(k, **pick({}, {'save_dynamic': False}))
must(c.n == 4 and c.twice == 8 and K.made == [], 'dynamic values are not copied unless asked for')
c = copy(k, save_dynamic=True)
must(c.n == 4 and c.twice == 8, 'dynamic values are what their function makes of the copy')
''')
    add('serializers', '''
shared = [1]
calls = []
def out(value, **kwargs):
    calls.append(('out', kwargs.get('include_class'), kwargs.get('trusted'), kwargs.get('tint')))
    return value
def back(value, **kwargs):
    calls.append(('back', kwargs.get('include_class'), kwargs.get('trusted'), kwargs.get('tint')))
    return value
class K(H):
    x = Property('x', serializer=out, deserializer=back)
    y = List('y', Property('p', serializer=out, deserializer=back))
k = K(x=shared)
tint = sym('tint')
c = copy(k, tint=tint)
must(c.x is shared, 'a registered serializer may share')
must(len(calls) == 2 and calls[0][0] == 'out' and calls[1][0] == 'back', 'registered serializers are used in both directions')
for q in calls:
    must(q[1] is True and q[2] is True and same(q[3], tint), 'the same options are used in both directions')
''')
    add('defaults', '''
count = []
def fresh():
    count.append(1)
    return [1, 2]
class K(H):
    l = List('l', Integer('i'), default=fresh)
    n = Integer('n', default=5)
    g = GettableProperty('g', default=7)
k = K()
how = pick('keep', 'change', 'delete')
if how == 'change':
    k.l = [3]
    k.n = 6
elif how == 'delete':
    del k.n
    k.l = []
r = outcome(copy(k))
must(r.ok, 'instances with defaults can be copied')
c = r.value
must(c.l == k.l and c.l is not k.l, 'a copy has the values of the original')
must(c.g == 7, 'a copy has the values of the original')
if how != 'delete':
    must(c.n == k.n, 'a copy has the values of the original')
''')
    add('observers', '''
fired = []
class K(H):
    n = Integer('n')
    @observer('n')
    def seen(self, change):
        fired.append(self)
    @validator
    def check(self):
        fired.append('validated')
k = K(n=1)
other = []
properties.observer(k, 'n', lambda obj, change: other.append(1))
del fired[:]
c = copy(k)
must(not any([x is k for x in fired]), 'copying does not touch the original')
must(other == [], 'observers of the original do not see the copy')
del fired[:]
c.n = 5
must(len(fired) == 1 and fired[0] is c and other == [], 'observers of the original do not see the copy')
k.n = 6
must(other == [1] and c.n == 5, 'changing the original leaves the copy alone')
''')
    add('errors', '''
class Boom(Exception):
    pass
def bad(value, **kwargs):
    raise Boom('x')
side = pick('out', 'back')
class K(H):
    x = Integer('x', serializer=bad) if side == 'out' else Integer('x', deserializer=bad)
k = K(x=3)
n = now()
r = outcome(copy(k))
must(not r.ok and isinstance(r.error, Boom), 'an error ends the copying')
untouched(k, since=n)
''')
    add('extras', '''
import properties.extras
X = properties.extras
class S(X.Singleton):
    n = Integer('n')
s = S('me', n=3)
must(copy(s) is s, 'a singleton stays the one object of its name')
must(s.n == 3, 'a singleton stays the one object of its name')
''')
    return S
