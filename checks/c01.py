"""Stored values come from validation only, whatever the entry point."""
from engine.explore import Scenario

BASE = '''
V = fn('V', ValidationError, KeyError)
EQ = fn('EQ')
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(self, instance, value)
    def equal(self, value_a, value_b):
        return EQ(value_a, value_b)
class Q(P):
    pass
class A(HasProperties):
    p = P('doc')
    q = Q('doc')
def read(obj, prop, w):
    "What reading the property gives when w was stored."
    return w is None if w is undefined else w
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, BASE + src, **k))

    add('assign', '''
a = A()
must(a.p is None and a.q is None, 'a property without default reads None')
x = sym('x')
y = sym('y')
PP = a._props['p']
r = outcome(setattr(a, 'p', x))
if x is undefined:
    must(r.ok, 'undefined is accepted')
    must(a.p is None, 'undefined clears')
elif r.ok:
    w = V(PP, a, x)
    must(a.p is w or (w is undefined and a.p is None), 'what is stored is what validation returned')
else:
    must(a.p is None, 'a rejected assignment leaves the value unset')
must(a.q is None, 'other properties are unaffected')
cur = a.p
r = outcome(setattr(a, 'p', y))
if r.ok:
    w = undefined if y is undefined else V(PP, a, y)
    must(a.p is w or (w is undefined and a.p is None), 'what is stored is what validation returned')
else:
    must(a.p is cur, 'a rejected assignment keeps the stored value')
must(a.q is None, 'other properties are unaffected')
cur = a.p
del a.p
must(a.p is None, 'deletion clears')
''')
    add('validator-callback', '''
tamper = pick('keep', 'replace', 'undefined', 'raise')
z = sym('z')
class B(HasProperties):
    p = P('doc')
    @validator('p')
    def _cb(self, change):
        if tamper == 'replace':
            change['value'] = z
        elif tamper == 'undefined':
            change['value'] = undefined
        elif tamper == 'raise':
            raise ValidationError('no')
b = B()
PP = b._props['p']
x = sym('x')
r = outcome(setattr(b, 'p', x))
if r.ok:
    must(tamper != 'raise', 'a raising validator callback rejects')
    if tamper == 'replace':
        w = z
    elif tamper == 'undefined':
        w = undefined
    else:
        w = undefined if x is undefined else V(PP, b, x)
    must(b.p is w or (w is undefined and b.p is None), 'the validator callback decides what is stored')
else:
    must(b.p is None, 'a rejected assignment leaves the value unset')
''')
    add('constructor', '''
x = sym('x')
y = sym('y')
r = outcome(A(p=x, q=y))
if r.ok:
    a = r.value
    w = undefined if x is undefined else V(a._props['p'], a, x)
    must(a.p is w or (w is undefined and a.p is None), 'constructor keywords are validated')
    w = undefined if y is undefined else V(a._props['q'], a, y)
    must(a.q is w or (w is undefined and a.q is None), 'constructor keywords are validated')
''')
    add('constructor-error', '''
VP = fn('VP', ValidationError)
class PV(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return VP(value)
class B(HasProperties):
    p = PV('doc')
x = sym('x')
r = outcome(B(p=x))
if x is undefined:
    must(r.ok, 'undefined accepted')
else:
    v = outcome(VP(x))
    must(r.ok == v.ok, 'construction succeeds exactly when validation does')
''')
    add('defaults', '''
d = sym('d')
assume(not callable(d))
where = pick('property', 'class')
P0 = None
r = None
if where == 'property':
    assume(d is not None)
    r = outcome(P('doc', default=d))
    if r.ok:
        P0 = r.value
        class B(HasProperties):
            p = P0
    else:
        stop()
else:
    P0 = P('doc')
    try:
        class B(HasProperties):
            _defaults = {'p': d}
            p = P0
    except (AttributeError, KeyError):
        stop()
r = outcome(B())
if r.ok:
    b = r.value
    if d is undefined:
        must(b.p is None, 'an undefined default means no value')
    else:
        w = V(P0, b, d)
        must(b.p is w or (w is undefined and b.p is None), 'defaults are validated')
''')
    add('immutable-default', '''
d = sym('d')
assume(not callable(d))
class G(GettableProperty):
    class_info = 'g'
    def validate(self, instance, value):
        return V(self, instance, value)
where = pick('property', 'class')
if where == 'property':
    assume(d is not None)
    r = outcome(G('doc', default=d))
    if not r.ok:
        stop()
    G0 = r.value
    class B(HasProperties):
        g = G0
else:
    G0 = G('doc')
    try:
        class B(HasProperties):
            _defaults = {'g': d}
            g = G0
    except (AttributeError, KeyError):
        stop()
r = outcome(B())
if r.ok:
    b = r.value
    if d is undefined:
        must(b.g is None, 'an undefined default means no value')
    else:
        w = V(G0, b, d)
        must(b.g is w or (w is undefined and b.g is None), 'defaults of read-only properties are validated')
''')
    add('deserialize', '''
FJ = fn('FJ', ValidationError)
VP = fn('VP', ValidationError)
class J(Property):
    class_info = 'j'
    def validate(self, instance, value):
        return VP(value)
    @staticmethod
    def from_json(value, **kwargs):
        return FJ(value)
class G(GettableProperty):
    class_info = 'g'
    def validate(self, instance, value):
        return VP(value)
    @staticmethod
    def from_json(value, **kwargs):
        return FJ(value)
assume(outcome(VP(3)).ok)
class B(HasProperties):
    j = J('doc')
    g = G('doc', default=pick(undefined, 3))
x = sym('x')
y = sym('y')
assume(x is not None)
assume(y is not None)
given = None
opts = {}
how = pick('plain', 'trusted', 'strict', 'valid', 'instance')
if how == 'trusted':
    opts = {'trusted': True}
elif how == 'strict':
    opts = {'trusted': True, 'strict': True}
elif how == 'valid':
    opts = {'assert_valid': True}
elif how == 'instance':
    r = outcome(B())
    if not r.ok:
        stop()
    given = r.value
    opts = {'_instance': given}
r = outcome(B.deserialize({'j': x, 'g': y, '__class__': 'B'}, **opts))
if r.ok:
    b = r.value
    fj = FJ(x)
    if fj is undefined or fj is None and b.j is None:
        must(b.j is None, 'undefined clears')
    else:
        w = VP(fj)
        must(b.j is w or (w is undefined and b.j is None), 'deserialized values are validated')
    fj = FJ(y)
    if not (fj is undefined or fj is None and b.g is None):
        w = VP(fj)
        must(b.g is w or (w is undefined and b.g is None), 'deserialized values of read-only properties are validated')
''')
    add('reset', '''
d = sym('d')
assume(not callable(d))
assume(d is not None)
x = sym('x')
r = outcome(P('doc', default=d))
if not r.ok:
    stop()
P0 = r.value
class B(HasProperties):
    p = P0
r = outcome(B())
if not r.ok:
    stop()
b = r.value
r = outcome(setattr(b, 'p', x))
cur = b.p
r = outcome(b._reset('p'))
if r.ok:
    w = undefined if d is undefined else V(P0, b, d)
    must(b.p is w or (w is undefined and b.p is None), 'reset stores the validated default')
else:
    must(b.p is cur, 'a rejected reset keeps the value')
''')
    add('delete-rejected', '''
fail = pick(True, False)
class B(HasProperties):
    p = P('doc')
    @validator('p')
    def _cb(self, change):
        if change['value'] is undefined and fail:
            raise ValidationError('no')
b = B()
x = sym('x')
r = outcome(setattr(b, 'p', x))
cur = b.p
try:
    del b.p
    ok = True
except ValidationError:
    ok = False
if ok:
    must(b.p is None, 'deletion clears')
    must(not fail, 'a vetoed deletion raises')
else:
    must(b.p is cur, 'a vetoed deletion keeps the value')
''')
    return S
