"""Defaults: precedence, freshness and silence."""
from engine.explore import Scenario

PROPS = '''
def V(value):
    return value if isinstance(value, tuple) else ('validated', value)
def symbolic(tag):
    v = sym(tag)
    assume(not callable(v) and v is not undefined and v is not None and not isinstance(v, tuple))
    return v
class P(Property):
    def validate(self, instance, value):
        return V(value)
class G(GettableProperty):
    def validate(self, instance, value):
        return V(value)
type_default = symbolic('type_default')
class TP(P):
    _class_default = type_default
class TG(G):
    _class_default = type_default
'''

# a default: absent, undefined, a value, or a callable giving either
CHOOSE = '''
F = fn('F')
def declared(tag):
    what = pick('none', 'undefined', 'value', 'callable')
    if what == 'none':
        return what, None
    if what == 'undefined':
        return what, undefined
    if what == 'value':
        return what, symbolic(tag)
    return what, (lambda: F(tag))
def members(what, value, **more):
    if what != 'none':
        more['_defaults'] = {'x': value}
    return more
def expect(k, what, value, tag, calls):
    """the stored value comes from this declaration"""
    if what == 'undefined':
        must('x' not in k._backend and k.x is None, 'undefined means no value')
        return
    if what == 'callable':
        must(len(calls_to(F)) == calls + 1, 'the callable is called once for each instance')
        value = exactly(F(tag), tag)
    if value is undefined:
        must('x' not in k._backend and k.x is None, 'undefined means no value')
    else:
        must(k._backend.get('x', undefined) == V(value),
             'the value is the validated default of the nearest class')
def exactly(v, tag):
    return v
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 600)
        S.append(Scenario(name, src, **k))

    for pc in ('P', 'G', 'TP', 'TG'):
        head = PROPS + CHOOSE
        # three levels, the property default and the type default
        add('chain-' + pc, head + '''
pwhat, pval = declared('own')
p = %s('d') if pwhat == 'none' else %s('d', default=pval)
awhat, aval = declared('A')
bwhat, bval = declared('B')
A = type(HasProperties)('A', (HasProperties,), members(awhat, aval, x=p))
B = type(HasProperties)('B', (A,), members(bwhat, bval))
C = type(HasProperties)('C', (B,), {})
n = len(calls_to(F))
k = pick(B, C)()
if bwhat != 'none':
    expect(k, bwhat, bval, 'B', n)
elif awhat != 'none':
    expect(k, awhat, aval, 'A', n)
elif pwhat != 'none':
    expect(k, pwhat, pval, 'own', n)
elif %s:
    expect(k, 'value', type_default, 'type', n)
else:
    expect(k, 'undefined', None, 'type', n)
n = len(calls_to(F))
a = A()
if awhat != 'none':
    expect(a, awhat, aval, 'A', n)
elif pwhat != 'none':
    expect(a, pwhat, pval, 'own', n)
elif %s:
    expect(a, 'value', type_default, 'type', n)
else:
    expect(a, 'undefined', None, 'type', n)
'''.replace('%s', '%(x)s') .replace('%(x)s', pc, 2).replace('%(x)s', str(pc in ('TP', 'TG')), 2)
            .replace('type_default, ', '%s._class_default, ' % pc), paths=1200, thorough=4)

    SHAPES = [
        ('diamond', '''
A = make('A', (HasProperties,), x=p)
B = make('B', (A,))
C = make('C', (A,))
D = make('D', (B, C))
order = [D, B, C, A]
'''),
        ('diamond-own', '''
A = make('A', (HasProperties,), x=p)
B = make('B', (A,))
C = make('C', (A,))
E = make('E', (C,))
D = make('D', (B, E))
order = [D, B, E, C, A]
'''),
        ('mixin', '''
M = plain('M', (object,))
A = make('A', (HasProperties,), x=p)
D = make('D', (M, A))
order = [D, M, A]
'''),
        ('mixin-last', '''
M = plain('M', (object,))
N = plain('N', (M,))
A = make('A', (HasProperties,), x=p)
B = make('B', (A,))
D = make('D', (B, N))
order = [D, B, A, N, M]
'''),
        ('redeclared', '''
A = make('A', (HasProperties,), x=P('d', default='first'))
B = make('B', (A,), x=p)
D = make('D', (B,))
order = [D, B, A]
'''),
    ]
    for name, shape in SHAPES:
        for t in (['B', 'C', 'A'], ['D', 'C', 'B'], ['M', 'A', 'N'], ['E', 'D', 'B'], ['A', 'N', 'E']):
            if sum(("'%s'" % x in shape) for x in t) < 2:
                continue
            add('%s-%s' % (name, ''.join(t)), PROPS + '''
with_default = %r
declared = {}
own = pick('none', 'value')
own_value = symbolic('own')
p = P('d') if own == 'none' else P('d', default=own_value)
def members(name, more):
    if name in with_default:
        what = pick('none', 'undefined', 'value')
        if what == 'undefined':
            declared[name] = undefined
            more['_defaults'] = {'x': undefined}
        elif what == 'value':
            v = symbolic('at_' + name)
            declared[name] = v
            more['_defaults'] = {'x': v}
    return more
def make(name, bases, **more):
    return type(HasProperties)(name, bases, members(name, more))
def plain(name, bases, **more):
    return type(name, bases, members(name, more))
%s
must([c for c in D.__mro__ if c in order] == order, 'scenario: resolution order')
k = D()
want = own_value if own == 'value' else undefined
for c in reversed(order):
    if c.__name__ in declared:
        want = declared[c.__name__]
if want is undefined:
    must('x' not in k._backend, 'undefined means no value')
else:
    must(k._backend.get('x', undefined) == V(want), 'the nearest class decides')
''' % (t, shape), paths=400)

    # -- instances, unions, containers: the type's own default
    add('instance-default', '''
made = []
class In(HasProperties):
    def __init__(self, **kw):
        made.append(self)
class K(HasProperties):
    x = Instance('d', In, auto_create=True)
    y = Instance('d', In, default=In)
    z = Instance('d', In)
    v = Instance('d', In, auto_create=True, default=undefined)
del made[:]
a, b = K(), K()
must(isinstance(a.x, In) and isinstance(b.x, In) and a.x is not b.x, 'each instance gets an object of its own')
must(isinstance(a.y, In) and isinstance(b.y, In) and a.y is not b.y, 'each instance gets an object of its own')
must(a.z is None and a.v is None, 'undefined means no value')
must(len(made) == 4, 'the callable is called once for each instance')
old = a.x
a._reset('x')
must(isinstance(a.x, In) and a.x is not old, 'the callable is called anew for a reset')
must(len(made) == 5, 'the callable is called once for each reset')
''')
    add('union-default', '''
first = pick(undefined, 1)
second = pick(undefined, 'two')
own = pick(None, undefined, 'three')
p1 = Integer('d', default=first)
p2 = String('d', default=second)
u = Union('d', (p1, p2)) if own is None else Union('d', (p1, p2), default=own)
class K(HasProperties):
    x = u
k = K()
if own is not None and own is not undefined:
    must(k.x == own, 'the default of the union itself comes first')
elif own is None:
    want = first if first is not undefined else second
    must(k.x == (None if want is undefined else want), 'then the first default of its members')
class L(K):
    _defaults = {'x': 'four'}
must(L().x == 'four', 'the class default comes before both')
''')
    add('container-default', '''
class K(HasProperties):
    x = List('d', Integer('d'))
    y = Set('d', Integer('d'))
    z = Dictionary('d')
    t = Tuple('d')
    l = List('d', Integer('d'), default=pick([1, 2], lambda: [1, 2]))
    n = List('d', Integer('d'), default=undefined)
a, b = K(), K()
must(a.l == [1, 2], 'the declared default')
must(a.n is None, 'undefined means no value')
for name in ('x', 'y', 'z', 'l'):
    va, vb = getattr(a, name), getattr(b, name)
    must(va is None or va is not vb, 'each instance has a default of its own')
''')

    # -- freshness
    add('fresh', PROPS + '''
F = fn('F')
cls = pick(P, G)
level = pick('property', 'class', 'inherited')
if level == 'property':
    class A(HasProperties):
        x = cls('d', default=lambda: F())
    class B(A):
        pass
elif level == 'class':
    class A(HasProperties):
        x = cls('d')
    class B(A):
        _defaults = {'x': lambda: F()}
else:
    class A(HasProperties):
        x = cls('d')
        _defaults = {'x': lambda: F()}
    class B(A):
        pass
n = len(calls_to(F))
k = B()
must(len(calls_to(F)) == n + 1, 'the callable is called once for each instance')
j = B()
must(len(calls_to(F)) == n + 2, 'the callable is called anew for every instance')
if cls is P:
    k._reset('x')
    must(len(calls_to(F)) == n + 3, 'the callable is called anew for every reset')
    k._reset()
    must(len(calls_to(F)) == n + 4, 'the callable is called anew for every reset')
k.x
outcome(k.validate())
outcome(k.serialize(save_dynamic=True))
must(len(calls_to(F)) == n + (4 if cls is P else 2), 'nothing else calls it')
''')
    add('fresh-values', '''
class Box(object):
    pass
cls = pick(Property, GettableProperty)
class A(HasProperties):
    x = cls('d', default=pick(Box, lambda: Box()))
class B(HasProperties):
    x = cls('d')
    _defaults = {'x': Box}
K = pick(A, B)
a, b = K(), K()
must(isinstance(a.x, Box) and isinstance(b.x, Box) and a.x is not b.x, 'each instance has a value of its own')
''')

    # -- silence and order
    add('silent', PROPS + '''
seen = []
ready = []
X = symbolic('x')
class A(HasProperties):
    x = P('d')
    y = P('d')
    g = G('d')
    _defaults = {'x': X, 'y': lambda: X, 'g': X}
    @validator('x')
    def _check(self, change):
        seen.append('validator')
    @observer(['x', 'y'])
    def _note(self, change):
        seen.append('observer')
    @observer('y', change_only=True)
    def _note_change(self, change):
        seen.append('change')
    @observer(properties.everything)
    def _note_all(self, change):
        seen.append('everything')
    def __init__(self, *args, **kw):
        ready.append((self._backend.get('x', undefined), self._backend.get('y', undefined),
                      self._backend.get('g', undefined), len(seen), args, kw))
        if pick('super', 'none') == 'super':
            super(A, self).__init__(**kw)
k = A()
must(len(seen) == 0, 'setting the defaults fires no callback')
must(len(ready) == 1, 'the constructor runs once')
vx, vy, vg, n, args, kw = ready[0]
must(n == 0, 'no callback before the constructor')
ok = V(X)
must(vx == ok and vy == ok and vg == ok, 'the defaults are set before the constructor runs')
must(args == () and kw == {}, 'the constructor gets the arguments')
k.x = sym('z')
must('observer' in seen and 'everything' in seen, 'callbacks fire afterwards')
''')
    add('silent-nested', '''
seen = []
class In(HasProperties):
    v = Integer('d', default=1)
    @observer('v')
    def _note(self, change):
        seen.append('inner')
class A(HasProperties):
    x = Instance('d', In, default=In)
    @observer('x')
    def _note(self, change):
        seen.append('outer')
k = A()
must(len(seen) == 0, 'setting the defaults fires no callback')
k.x.v = 3
must(seen == ['inner'], 'callbacks fire afterwards')
k.x = In()
must(seen == ['inner', 'outer'], 'callbacks fire afterwards')
''')
    add('silent-failing', PROPS + '''
seen = []
F = fn('F', ValueError)
calm = [True]
def default():
    if calm[0]:
        return 1
    return F()
class A(HasProperties):
    y = P('d')
    x = P('d', default=default)
    @observer('y')
    def _note(self, change):
        seen.append('observer')
k = A()
calm[0] = False
r = outcome(A())
must(len(seen) == 0, 'setting the defaults fires no callback')
k.y = sym('z')
must(len(seen) == 1, 'callbacks fire afterwards, also when a default failed')
''')
    add('keywords', PROPS + '''
seen = []
X = symbolic('x')
class A(HasProperties):
    x = P('d')
    y = P('d', default=X)
    _defaults = {'x': X}
    @observer(['x', 'y'])
    def _note(self, change):
        seen.append(change['name'])
W = symbolic('w')
k = A(x=W)
must(seen == ['x'], 'only the keyword given is announced')
must(k.x == V(W), 'a keyword overrides the default')
must(k.y == V(X), 'the other property keeps its default')
must(A().x == V(X), 'the default is not changed by instances')
''')

    # -- reset
    add('reset', PROPS + '''
X, Y, W = symbolic('x'), symbolic('y'), symbolic('w')
class A(HasProperties):
    x = P('d', default=X)
    y = P('d', default=X)
    z = P('d')
    u = P('d', default=X)
    _defaults = {'x': Y}
class B(A):
    _defaults = {'u': undefined}
k = B()
k.x = k.y = k.z = k.u = W
def want(name):
    return {'x': Y, 'y': X, 'z': undefined, 'u': undefined}[name]
names = ['x', 'y', 'z', 'u']
which = pick('x', 'y', 'z', 'u', None)
if which is None:
    k._reset()
    done = names
else:
    k._reset(which)
    done = [which]
for n in names:
    d = want(n) if n in done else W
    if d is undefined:
        must(n not in k._backend, 'a reset without a default leaves no value')
    else:
        must(k._backend.get(n, undefined) == V(d), 'a reset restores the default of that property alone')
''')
    add('reset-refused', PROPS + '''
X = symbolic('x')
class A(HasProperties):
    x = P('d', default=1)
    g = G('d', default=2)
    @property
    def plain(self):
        return 1
    @properties.Integer('d')
    def dyn(self):
        return 3
k = A()
k.x = X
before = dict(k._backend)
r = outcome(k._reset(pick('g', 'q', 'plain', 'dyn', '_backend', '')))
must(not r.ok and isinstance(r.error, AttributeError), 'only known mutable properties can be reset')
must(k._backend == before, 'a refused reset changes nothing')
''')

    # -- refused class defaults
    add('refused', '''
V = fn('V', ValidationError, ValueError)
class P(Property):
    def validate(self, instance, value):
        return V(value)
class G(GettableProperty):
    def validate(self, instance, value):
        return V(value)
F = fn('F')
X = sym('x')
assume(not callable(X) and X is not undefined)
how = pick('value', 'callable')
given = X if how == 'value' else (lambda: F())
where = pick('same', 'sub', 'mixin', 'grand')
cls = pick(P, G)
def declare():
    if where == 'same':
        class A(HasProperties):
            x = cls('d')
            _defaults = {'x': given}
        return A
    class A(HasProperties):
        x = cls('d')
    if where == 'sub':
        class B(A):
            _defaults = {'x': given}
        return B
    if where == 'grand':
        class M(A):
            pass
        class B(M):
            y = P('d')
            _defaults = {'x': given}
        return B
    class M(object):
        _defaults = {'x': given}
    class B(M, A):
        pass
    return B
r = outcome(declare())
value = X if how == 'value' else F()
rejected = value is not undefined and not outcome(V(value)).ok
must(r.ok == (not rejected), 'a class default its property rejects makes class creation fail')
if not r.ok:
    must(isinstance(r.error, AttributeError), 'an unusable class default raises AttributeError')
''', paths=300)
    add('unknown', '''
F = fn('F')
given = pick(1, undefined, sym('x'), lambda: F())
where = pick('same', 'sub', 'mixin', 'inherited', 'removed', 'private', 'attribute')
def declare():
    class A(HasProperties):
        y = Property('d')
        plain = 3
        if where == 'same':
            _defaults = {'x': given}
    if where == 'sub':
        class B(A):
            _defaults = {'y': 1, 'x': given}
    elif where == 'private':
        class B(A):
            _defaults = {'_y': given}
    elif where == 'attribute':
        class B(A):
            _defaults = {'plain': given}
    elif where == 'mixin':
        class M(object):
            _defaults = {'x': given}
        class B(A, M):
            pass
    elif where == 'removed':
        class R(A):
            x = Property('d')
            _defaults = {'x': 1}
        class B(R):
            x = None
    else:
        class M(object):
            _defaults = {'x': given}
        class N(M, A):
            pass
        class B(N):
            pass
    return B
r = outcome(declare())
must(not r.ok and isinstance(r.error, AttributeError), 'a default for an unknown property makes class creation fail')
''')
    add('separate-classes', PROPS + '''
X, Y = symbolic('x'), symbolic('y')
class A(HasProperties):
    x = P('d')
    y = P('d')
    _defaults = {'x': X}
class B(A):
    _defaults = {'y': Y}
class C(A):
    _defaults = {'x': Y}
a, b, c = A(), B(), C()
def stored(k, n, v):
    return k._backend.get(n, undefined) == V(v)
must(stored(a, 'x', X) and 'y' not in a._backend, 'a subclass does not change the defaults of its base')
must(stored(b, 'x', X) and stored(b, 'y', Y), 'defaults of different properties add up along the ancestry')
must(stored(c, 'x', Y) and 'y' not in c._backend, 'a sibling does not change the defaults of another class')
''')
    add('typed', '''
class A(HasProperties):
    i = Integer('d', default=pick(3, 3.0))
    f = Float('d')
    s = String('d', default='a')
    b = Boolean('d')
    c = Color('d', default='red')
    ch = StringChoice('d', choices=['a', 'b'], default='b')
    _defaults = {'f': 2, 'b': False}
k = A()
must(k.i == 3 and k.f == 2 and k.s == 'a' and k.b is False and k.c == (255, 0, 0) and k.ch == 'b', 'declared defaults')
class B(A):
    _defaults = {'i': undefined, 's': lambda: 'z'}
j = B()
must(j.i is None and j.s == 'z' and j.f == 2, 'the nearest class decides')
r = outcome(type(HasProperties)('C', (A,), {'_defaults': {'i': pick('x', 1.5)}}))
must(not r.ok and isinstance(r.error, AttributeError), 'an unusable class default raises AttributeError')
''')
    return S
