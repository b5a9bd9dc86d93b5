"""Instance properties accept, build or reject consistently."""
from engine.explore import Scenario

HEAD = '''
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 400)
        S.append(Scenario(name, HEAD + src, **k))

    for kind, make in (('instance', "Instance('d', cls)"), ('pointer', "properties.extras.Pointer('d', cls)"),
                       ('pointer-load', "properties.extras.Pointer('d', cls, load=True)")):
        ptr = kind != 'instance'
        add('foreign-' + kind, '''
made = []
M = fn('M', ValueError, KeyError, TypeError, AttributeError, ValidationError)
class cls(object):
    def __init__(self, *args, **kwargs):
        made.append((self, args, kwargs))
        M(*args)
class Sub(cls):
    pass
class H(HasProperties):
    pass
p = %s
p.name = 'field'
h = pick(None, H())
def value():
    how = pick('same', 'sub', 'dict', 'empty', 'other')
    if how == 'same':
        return cls.__new__(cls)
    if how == 'sub':
        return Sub.__new__(Sub)
    if how == 'dict':
        return {'a': sym('a'), 'b': 2}
    if how == 'empty':
        return {}
    x = sym('x')
    assume(not isinstance(x, cls) and not isinstance(x, dict)%s)
    return x
v = value()
r = outcome(p.validate(h, v))
if isinstance(v, cls):
    must(r.ok and r.value is v, 'an object of the class is kept')
    must(len(made) == 0, 'nothing is built for an object of the class')
else:
    must(len(made) == 1, 'one object is built')
    me, args, kwargs = made[0]
    if isinstance(v, dict):
        must(len(args) == 0 and kwargs == v, 'a dictionary holds the keywords of the constructor')
    else:
        must(len(args) == 1 and args[0] is v and len(kwargs) == 0, 'another value is the argument of the constructor')
    if r.ok:
        must(r.value is me, 'the built object is kept')
        must(outcome(M(*args)).ok, 'a failing constructor is no success')
    else:
        must(isinstance(r.error, ValidationError), 'a failing constructor is a validation error')
        must(not outcome(M(*args)).ok, 'a value the constructor takes is accepted')
''' % (make, " and x is not None and not isinstance(x, str)" if ptr else ''))
        add('props-' + kind, '''
made = []
class B(HasProperties):
    pass
V = fn('V', ValidationError, ValueError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        w = V(value)
        assume(w is not undefined and w is not None)
        return w
class cls(B):
    v = P('d', required=False)
    w = Property('d', required=False)
class Sub(cls):
    pass
class Other(B):
    v = Property('d', required=False)
class H(HasProperties):
    pass
p = %s
h = H()
X = sym('x')
assume(X is not undefined)
v = pick(cls(), Sub(), Other(), B(), {'v': X}, {'w': 1, 'v': X}, {}, {'z': 1}, [], 3)
before = dict(v) if isinstance(v, dict) else None
n = len(getattr(v, '_backend', {}))
r = outcome(p.validate(h, v))
if isinstance(v, cls):
    must(r.ok and r.value is v, 'an instance of the class is kept')
elif isinstance(v, dict):
    must(v == before, 'the dictionary stays as it was')
    if 'z' in v:
        must(not r.ok and isinstance(r.error, ValidationError), 'an unknown keyword is a validation error')
    elif 'v' in v and not outcome(V(X)).ok:
        must(not r.ok and isinstance(r.error, ValidationError), 'an invalid keyword is a validation error')
        t = r.error.error_tuples
        must(len(t) == 1 and t[0].instance is h, 'the error is about the instance property')
        bad = outcome(V(X)).error
        if isinstance(bad, ValidationError):
            must(mentions(t[0].message, bad.error_tuples[0].message), 'the details of nested errors are reported')
    else:
        must(r.ok and type(r.value) is cls, 'a dictionary builds an instance')
        if 'v' in v:
            must(same(r.value.v, V(X)), 'the keywords are set')
        if 'w' in v:
            must(r.value.w == 1, 'the keywords are set')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'another value is a validation error')
''' % make)
    add('nested-details', '''
class In(HasProperties):
    a = Integer('d')
    b = List('d', Integer('d'))
class Mid(HasProperties):
    i = Instance('d', In)
class K(HasProperties):
    x = pick(Instance('d', Mid), List('d', Mid), Union('d', [Mid]))
k = K()
bad = {'i': {'a': 'unusual one', 'b': [2, 'unusual two']}}
r = outcome(setattr(k, 'x', [bad] if isinstance(K._props['x'], List) else bad))
must(not r.ok and isinstance(r.error, ValidationError), 'invalid nested data is a validation error')
text = r.error.error_tuples[0].message
must(mentions(text, 'unusual one'), 'the details of nested errors are reported')
must(k.x is None, 'nothing is stored')
''')
    add('assert_valid', '''
valid = []
class In(HasProperties):
    v = Property('d')
    def validate(self):
        valid.append(self)
        if bad:
            raise E
        return True
E = ValidationError('nested', 'invalid', 'v', None)
bad = pick(True, False)
class K(HasProperties):
    x = pick(Instance, properties.extras.Pointer)('d', In)
    o = Instance('d', list, required=False)
k = K()
i = In()
k._backend['x'] = i
r = outcome(K._props['x'].assert_valid(k))
must(r.ok == (not bad), 'an instance property is valid when its instance is')
must(len(valid) == 1 and valid[0] is i, 'the instance held is validated')
if not r.ok:
    must(r.error is E, 'the error of the instance held is reported')
else:
    must(r.value, 'a valid instance is valid')
r = outcome(k.validate())
must(r.ok == (not bad), 'an instance is valid when the instances it holds are')
''')
    add('assert-other', '''
class K(HasProperties):
    o = Instance('d', list, required=False)
k = K(o=[1])
must(k.validate(), 'an object of another class is valid')
k._backend['o'] = (1,)
r = outcome(k.validate())
must(not r.ok, 'a stored value that is no object of the class is invalid')
''')
    # ------------------------------------------------------------ JSON
    for kind, make in (('instance', "Instance('d', cls)"), ('pointer', "properties.extras.Pointer('d', cls)")):
        add('json-' + kind, '''
log = []
class cls(HasProperties):
    v = Property('d', required=False)
    def serialize(self, include_class=True, save_dynamic=False, **kwargs):
        log.append((self, dict(kwargs, include_class=include_class, save_dynamic=save_dynamic)))
        return S
    @classmethod
    def deserialize(klass, value, trusted=False, **kwargs):
        log.append((klass, value, trusted, dict(kwargs)))
        return D
class Sub(cls):
    pass
S, D = sym('s'), sym('d')
p = %s
i = pick(cls(), Sub())
r = p.serialize(i, mult=3, include_class=pick(True, False))
must(r is S and len(log) == 1, 'the instance serializes itself')
must(log[0][0] is i and log[0][1]['mult'] == 3, 'the instance gets the options')
log.clear()
data = pick({}, {'v': 1}, {'__class__': 'Sub'}, [1])
r = p.deserialize(data, mult=4, trusted=pick(True, False))
must(r is D and len(log) == 1, 'the class deserializes its instances')
must(log[0][0] is cls and log[0][1] is data and log[0][3]['mult'] == 4, 'the class gets the data and the options')
log.clear()
must(p.serialize(None) is None and p.deserialize(None) is None and len(log) == 0, 'None is left alone')
''' % make)
    add('json-foreign', '''
class Foreign(object):
    pass
p = pick(Instance('d', Foreign), properties.extras.Pointer('d', Foreign), Instance('d', complex))
which = pick('bad', 'good', 'any')
if which == 'bad':
    bad = pick(Foreign(), {1, 2}, [Foreign()], {'a': {3}}, 1j, (Foreign(),), object())
    r = outcome(p.serialize(bad))
    must(not r.ok and isinstance(r.error, TypeError), 'a value that is no JSON is refused')
elif which == 'good':
    good = pick([1, 'a', None], {'a': [1.5, True]}, 'x', 3, [], {}, {'a': {'b': [1]}})
    r = outcome(p.serialize(good))
    must(r.ok and r.value == good, 'a value that is JSON already is kept')
    r = outcome(p.deserialize(good))
    must(isinstance(p, properties.extras.Pointer) and isinstance(good, str) and r.value == good
         or not r.ok and isinstance(r.error, TypeError), 'without a deserializer, other classes are not built from JSON')
else:
    x = sym('x')
    assume(x is not None and not isinstance(x, HasProperties))
    r = outcome(p.serialize(x))
    if not r.ok:
        must(isinstance(r.error, TypeError), 'a value that is no JSON is a TypeError')
''')
    # ------------------------------------------------------------ pointers
    add('pointer-ids', '''
asked, loaded = [], []
answer = pick(True, False)
U = fn('U', ValidationError)
L = fn('L', ValidationError)
L2 = fn('L2')
class Target(properties.extras.HasUID):
    v = Property('d', required=False)
    @classmethod
    def validate_uid(cls, uid):
        asked.append(uid)
        U(uid)
        return answer
    @classmethod
    def load(cls, uid):
        loaded.append(uid)
        got = L(uid)
        assume(not isinstance(got, dict))
        return got
class Sub(Target):
    pass
class H(HasProperties):
    pass
load = pick(True, False)
p = properties.extras.Pointer('d', Target, load=load)
p.name = 'field'
h = pick(None, H())
x = sym('x', str)
r = outcome(p.validate(h, x))
must(len(asked) == 1 and asked[0] is x, 'the class is asked about the id')
if not outcome(U(x)).ok:
    must(not r.ok and isinstance(r.error, ValidationError), 'an invalid id is a validation error')
    must(r.error.error_tuples[0].instance is h and r.error.error_tuples[0].prop == 'field', 'the error is about the pointer')
    must(len(loaded) == 0, 'an invalid id is not loaded')
elif not load:
    must(r.ok and r.value is x, 'a valid id is kept')
    must(len(loaded) == 0, 'nothing is loaded unless asked for')
else:
    must(len(loaded) == 1 and loaded[0] is x, 'a valid id is loaded')
    got = outcome(L(x))
    if not got.ok:
        must(not r.ok and isinstance(r.error, ValidationError), 'an id that fails to load is a validation error')
    elif got.value is None:
        must(r.ok and r.value is x, 'an id that does not load is kept')
    elif isinstance(got.value, Target):
        must(r.ok and r.value is got.value, 'a loaded object replaces its id')
    else:
        must(r.ok and isinstance(r.value, Target) or not r.ok and isinstance(r.error, ValidationError),
             'a loaded object of another class is not kept')
''')
    add('pointer-none', '''
class Target(properties.extras.HasUID):
    pass
class K(HasProperties):
    x = properties.extras.Pointer('d', pick(Target, dict, HasProperties), load=pick(True, False), required=pick(True, False))
p = K._props['x']
k = K()
r = outcome(p.validate(pick(None, k), None))
must(not r.ok and isinstance(r.error, ValidationError), 'a pointer does not take None')
r = outcome(setattr(k, 'x', None))
must(not r.ok and isinstance(r.error, ValidationError), 'a pointer does not take None')
''')
    add('pointer-plain', '''
class Plain(object):
    pass
class Bare(HasProperties):
    v = Property('d', required=False)
class Named(HasProperties):
    name = StringChoice('d', choices=['a', 'b'], required=False)
x = sym('x', str)
p = properties.extras.Pointer('d', pick(Plain, Bare), load=pick(True, False))
r = outcome(p.validate(None, x))
must(r.ok and r.value is x, 'ids of a class without ids are kept')
p = properties.extras.Pointer('d', Named, uid_prop='name')
r = outcome(p.validate(None, 'a'))
must(r.ok and r.value == 'a', 'an id the uid property takes is kept')
r = outcome(p.validate(None, 'c'))
must(not r.ok and isinstance(r.error, ValidationError), 'an id the uid property rejects is a validation error')
n = Named(name='a')
r = outcome(p.validate(None, n))
must(r.ok and r.value is n, 'an instance is kept')
''')
    add('pointer-real', '''
class Target(properties.extras.HasUID):
    v = Property('d', required=False)
class Other(properties.extras.HasUID):
    v = Property('d', required=False)
class K(HasProperties):
    x = properties.extras.Pointer('d', Target, load=pick(True, False))
t, o = Target(uid='one'), Other(uid='two')
k = K()
k.x = 'one'
load = K._props['x'].load
must(k.x is t if load else k.x == 'one', 'an id is replaced by its object when loading')
k.x = 'three'
must(k.x == 'three', 'an id that does not load is kept')
r = outcome(setattr(k, 'x', 'two'))
if load:
    must(not r.ok and isinstance(r.error, ValidationError) and k.x == 'three', 'an object of another class is rejected')
else:
    must(r.ok and k.x == 'two', 'a valid id is kept')
k.x = t
must(k.x is t, 'an instance is kept')
k.x = {'uid': 'four', 'v': 1}
must(type(k.x) is Target and k.x.uid == 'four' and k.x.v == 1, 'a dictionary builds an instance')
r = outcome(setattr(k, 'x', 3))
must(not r.ok and isinstance(r.error, ValidationError), 'another value is a validation error')
must(k.x.uid == 'four', 'the old value stays')
must(K._props['x'].deserialize('abc') == 'abc', 'an id is deserialized as it is')
''')
    add('default-class', '''
class In(HasProperties):
    v = Integer('d', default=3)
class K(HasProperties):
    x = Instance('d', In, default=In)
    y = Instance('d', In, auto_create=True)
a, b = K(), K()
must(type(a.x) is In and a.x.v == 3 and type(a.y) is In, 'a class as default builds an instance')
must(a.x is not b.x and a.y is not b.y and a.x is not a.y, 'every instance gets its own')
''')
    return S
