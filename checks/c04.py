"""Read-only and dynamic properties cannot be set behind the rules."""
from engine.explore import Scenario

IMM = '''
V = fn('V')
class G(GettableProperty):
    class_info = 'g'
    def validate(self, instance, value):
        return V(value)
class P(Property):
    class_info = 'p'
class A(HasProperties):
    g = G('doc', default=7)
    u = Uuid('doc')
    n = G('doc')
    p = P('doc')
    old = Renamed('p', warn=False)
class B(A):
    pass
cls = pick(A, B)
a = cls()
name = pick('g', 'u', 'n')
before = getattr(a, name)
x = sym('x')
'''

DYN = '''
V = fn('V', ValidationError)
GET = fn('GET', KeyError)
PUT = fn('PUT', KeyError)
GONE = fn('GONE', KeyError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(instance, value)
seen = []
with_set = pick(True, False)
with_del = pick(True, False)
class A(HasProperties):
    q = Property('doc')
    @P('doc')
    def d(self):
        return GET()
    if with_set:
        @d.setter
        def d(self, value):
            seen.append((self, value))
            PUT(value)
    if with_del:
        @d.deleter
        def d(self):
            seen.append((self,))
            GONE()
class B(A):
    pass
a = pick(A, B)()
x = sym('x')
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, src, **k))

    add('immutable-set', IMM + '''
how = pick('set', 'undefined', 'delete', 'reset')
if how == 'set':
    r = outcome(setattr(a, name, x))
elif how == 'undefined':
    r = outcome(setattr(a, name, undefined))
elif how == 'delete':
    r = outcome(delattr(a, name))
else:
    r = outcome(a._reset(name))
must(not r.ok, 'a read-only property offers neither assignment nor deletion nor reset')
must(isinstance(r.error, AttributeError), 'changing a read-only property raises AttributeError')
must(getattr(a, name) is before, 'the value is unchanged')
''')
    add('immutable-init', IMM + '''
r = outcome(cls(**{name: x}))
must(not r.ok, 'a read-only property is no constructor keyword')
must(isinstance(r.error, (AttributeError, ValidationError)), 'the error of the assignment is raised')
''')
    add('reset-all', IMM + '''
a.p = x
a._reset()
must(getattr(a, name) is before, 'resetting everything leaves read-only properties alone')
must(a.p is None, 'resetting everything resets the others')
''')
    add('uuid-fresh', '''
class A(HasProperties):
    u = Uuid('doc')
a = A()
b = A()
must(a.u is a.u, 'the id is stable')
must(not same(a.u, b.u), 'each instance gets its own id')
''')
    add('dynamic-get', DYN + '''
r = outcome(a.d)
g = outcome(GET())
if not g.ok:
    must(not r.ok, 'a failing getter raises')
elif g.value is None or g.value is undefined:
    must(r.ok, 'None or undefined reads as None')
    must(r.value is None, 'None or undefined reads as None')
else:
    v = outcome(V(a, g.value))
    must(r.ok == v.ok, 'the computed value is validated')
    if v.ok:
        must(r.value is v.value, 'reading gives the validated computed value')
must(seen == [], 'reading calls no setter')
''')
    add('dynamic-every-read', '''
results = [sym('r0'), sym('r1'), sym('r2')]
for z in results:
    assume(z is not None)
    assume(z is not undefined)
reads = []
V = fn('V')
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(value)
class A(HasProperties):
    @P('doc')
    def d(self):
        reads.append(1)
        return results[len(reads) - 1]
a = A()
must(reads == [], 'construction does not read')
must(a.d is V(results[0]), 'the getter runs on every read')
must(a.d is V(results[1]), 'the getter runs on every read')
must(a.d is V(results[2]), 'the getter runs on every read')
''')
    add('dynamic-set', DYN + '''
r = outcome(setattr(a, 'd', x))
if not with_set:
    must(not r.ok, 'without a setter assignment fails')
    must(isinstance(r.error, AttributeError), 'without a setter assignment raises AttributeError')
    must(seen == [], 'nothing ran')
else:
    v = outcome(V(a, x))
    if not v.ok:
        must(not r.ok, 'the setter receives only validated values')
        must(seen == [], 'the setter receives only validated values')
    else:
        must(len(seen) == 1, 'the setter runs once')
        must(seen[0][0] is a and seen[0][1] is v.value, 'the setter receives the validated value')
        must(r.ok == outcome(PUT(v.value)).ok, 'the error of the setter is raised')
must('d' not in a._backend, 'a dynamic value is never saved')
''')
    add('dynamic-delete', DYN + '''
r = outcome(delattr(a, 'd'))
if not with_del:
    must(not r.ok, 'without a deleter deletion fails')
    must(isinstance(r.error, AttributeError), 'without a deleter deletion raises AttributeError')
    must(seen == [], 'nothing ran')
else:
    must(len(seen) == 1 and seen[0][0] is a, 'the deleter runs once')
    must(r.ok == outcome(GONE()).ok, 'the error of the deleter is raised')
''')
    add('dynamic-init', DYN + '''
r = outcome(pick(A, B)(d=x))
must(not r.ok, 'a dynamic property is no constructor keyword')
must(isinstance(r.error, AttributeError), 'a dynamic keyword raises AttributeError')
must(seen == [], 'no setter ran')
''')
    add('dynamic-reset', DYN + '''
r = outcome(a._reset('d'))
must(not r.ok, 'a dynamic property has no default')
must(isinstance(r.error, AttributeError), 'resetting a dynamic property raises AttributeError')
r = outcome(a._reset())
must(r.ok, 'resetting everything skips dynamic properties')
must(seen == [], 'no setter or deleter ran')
''')
    add('dynamic-deserialize', DYN + '''
q = sym('q')
assume(q is not None)
data = {'d': x, 'q': q}
r = outcome(A.deserialize(data))
if r.ok:
    must('d' not in r.value._backend, 'a dynamic value is never saved, not even by deserialization')
    must(seen == [], 'deserialization calls no setter')
    b = r.value
    r = outcome(b.d)
    g = outcome(GET())
    if g.ok and g.value is not None and g.value is not undefined:
        v = outcome(V(b, g.value))
        must(r.ok == v.ok, 'the value is still computed by the getter')
        if v.ok:
            must(r.value is v.value, 'the value is still computed by the getter')
''')
    add('dynamic-serialize', '''
GET = fn('GET')
V = fn('V')
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(value)
class A(HasProperties):
    q = Property('doc')
    @P('doc')
    def d(self):
        return GET()
a = A()
q = sym('q')
a.q = q
out = a.serialize()
must('d' not in out, 'a dynamic value is not serialized unless asked')
out = a.serialize(save_dynamic=False)
must('d' not in out, 'a dynamic value is not serialized unless asked')
g = GET()
out = a.serialize(save_dynamic=True)
if g is None or g is undefined or V(g) is None:
    must('d' not in out, 'an undefined dynamic value is not serialized')
else:
    must(out['d'] is V(g), 'the validated dynamic value is serialized on request')
''')
    add('dynamic-validate', DYN + '''
# a required underlying property does not make the dynamic one required
a.q = 1
r = outcome(a.validate())
must(seen == [], 'validation calls no setter or deleter')
must('d' not in a._backend, 'validation saves nothing')
''')
    add('dynamic-config', '''
class P(Property):
    class_info = 'p'
def getter(self):
    return None
def other(self):
    return None
def two(self, value):
    return None
def named_setter(self, value):
    return None
def named_deleter(self):
    return None
named_setter.__name__ = 'getter'
named_deleter.__name__ = 'getter'
prop = P('doc')(getter)
kind = pick('setter', 'deleter', 'func', 'default')
if kind == 'setter':
    bad = pick(3, getter, other, two)
    r = outcome(prop.setter(bad))
    must(not r.ok, 'a setter must be a two-argument callable of the same name')
    must(isinstance(r.error, TypeError), 'a bad setter raises TypeError')
    must(prop.set_func is None, 'nothing was registered')
elif kind == 'deleter':
    bad = pick(3, two, other)
    r = outcome(prop.deleter(bad))
    must(not r.ok, 'a deleter must be a one-argument callable of the same name')
    must(isinstance(r.error, TypeError), 'a bad deleter raises TypeError')
    must(prop.del_func is None, 'nothing was registered')
elif kind == 'func':
    bad = pick(3, two)
    r = outcome(P('doc')(bad))
    must(not r.ok, 'a getter takes one argument')
else:
    r = outcome(P('doc', default=3)(getter))
    must(not r.ok, 'a dynamic property has no default')
    must(isinstance(r.error, TypeError), 'a dynamic property has no default')
''')
    add('dynamic-inherits', '''
# the validating property of a dynamic property carries its name
V = fn('V', ValidationError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(value)
class A(HasProperties):
    @P('doc')
    def d(self):
        return sym('x')
must(A._props['d'].name == 'd', 'the property learns its name')
must(A._props['d'].prop.name == 'd', 'the validating property learns its name')
must(isinstance(A._props['d'], properties.basic.DynamicProperty), 'a decorated getter is a dynamic property')
must(not isinstance(A._props['d'], Property), 'a dynamic property is not a settable property')
''')
    return S
