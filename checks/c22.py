"""Renamed properties are transparent aliases."""
from engine.explore import Scenario

HEAD = '''
warned = []
strict_warnings = False
watching = []
def warn(message, category=None, stacklevel=1, **kwargs):
    if isinstance(message, Warning):
        category = type(message)
    warned.append((category, [dict(o._backend) for o in watching], len(told)))
    if strict_warnings:
        raise UserError('warning')
class UserError(Exception):
    pass
stub('warnings.warn', warn)
told = []
V = fn('V', ValidationError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        w = V(value)
        assume(w is not None and w is not undefined)
        return w
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 400)
        S.append(Scenario(name, HEAD + src, **k))

    add('access', '''
w = pick(True, False, None)
class K(HasProperties):
    new = P('d', required=False)
    other = Property('d', required=False)
    old = Renamed('new', **({} if w is None else {'warn': w}))
    @properties.observer('new')
    def _set_new(self, change):
        told.append(('set', change['name'], change['value']))
    @properties.validator('new')
    def _check_new(self, change):
        told.append(('check', change['name'], change['value']))
class Sub(K):
    pass
cls = pick(K, Sub)
k, twin = cls(), cls()
for o in (k, twin):
    o.other = 7
    if filled:
        o._backend['new'] = start
must(len(warned) == 0, 'using other names does not warn')
watching.append(k)
before = dict(k._backend)
op = pick('get', 'set', 'delete')
if op == 'get':
    a = outcome(k.old)
elif op == 'set':
    a = outcome(setattr(k, 'old', X))
else:
    a = outcome(delattr(k, 'old'))
events = list(told)
count = 0 if w is False else 1
must(len(warned) == count, 'using the old name warns once, unless warnings are disabled')
if count:
    must(issubclass(warned[0][0], Warning), 'the warning is a warning')
    must(warned[0][1][0] == before and warned[0][2] == 0, 'the warning comes first')
told.clear()
warned.clear()
if op == 'get':
    b = outcome(twin.new)
elif op == 'set':
    b = outcome(setattr(twin, 'new', X))
else:
    b = outcome(delattr(twin, 'new'))
must(len(warned) == 0, 'using the new name does not warn')
must(a.ok == b.ok, 'the old name does what the new name does')
if a.ok:
    must(same(a.value, b.value), 'the old name does what the new name does')
else:
    must(type(a.error) is type(b.error), 'the old name does what the new name does')
must(events == told, 'callbacks hear of the new name')
must(set(k._backend) == set(twin._backend), 'only the new name is changed')
for n in k._backend:
    must(same(k._backend[n], twin._backend[n]), 'only the new name is changed')
must(k.other == 7 and 'old' not in k._backend, 'only the new name is changed')
'''.replace("cls = pick(K, Sub)", "filled = pick(True, False)\nstart = sym('start')\nX = sym('X')\nassume(X is not undefined and X is not None and start is not None and start is not undefined)\ncls = pick(K, Sub)"),
        paths=900)
    add('warning-error', '''
class K(HasProperties):
    new = Property('d', required=False)
    old = Renamed('new')
    @properties.observer('new')
    def _set_new(self, change):
        told.append(change['value'])
k = K(new=1)
told.clear()
strict_warnings = True
op = pick('get', 'set', 'delete')
if op == 'get':
    r = outcome(k.old)
elif op == 'set':
    r = outcome(setattr(k, 'old', 2))
else:
    r = outcome(delattr(k, 'old'))
must(not r.ok and isinstance(r.error, UserError), 'the warning comes first')
must(k.new == 1 and len(told) == 0, 'the warning comes first')
''')
    add('chain', '''
class K(HasProperties):
    new = P('d', required=False)
    mid = Renamed('new', warn=pick(True, False))
    old = Renamed('mid', warn=pick(True, False))
class Sub(K):
    older = Renamed('old', warn=False)
k = Sub()
name = pick('old', 'older', 'mid', 'new')
X = sym('X')
assume(X is not undefined and X is not None)
count = 0
if name != 'new' and K._props['mid'].warn:
    count += 1
if name in ('old', 'older') and K._props['old'].warn:
    count += 1
r = outcome(setattr(k, name, X))
must(len(warned) == count, 'every renamed property warns once')
must(r.ok == outcome(V(X)).ok, 'the new property decides')
if r.ok:
    must(same(k.new, V(X)), 'the new property is set')
    must(list(k._backend) == ['new'], 'only the new name is changed')
    got = getattr(k, pick('old', 'older', 'mid'))
    must(same(got, k.new), 'the old name reads the new property')
    delattr(k, name)
    must(k.new is None, 'the old name deletes the new property')
''')
    add('overridden', '''
class K(HasProperties):
    new = Integer('d', required=False)
    old = Renamed('new')
class Sub(K):
    new = String('d', required=False)
k, s = K(), Sub()
k.old = 1
s.old = 'x'
must(k.new == 1 and s.new == 'x', 'the new property of the class is used')
must(not outcome(setattr(s, 'old', 1)).ok and s.new == 'x', 'the new property of the class is used')
must(k.new == 1, 'other instances stay as they are')
class Two(HasProperties):
    new = Integer('d', required=False)
    other = Integer('d', required=False)
    a = Renamed('new')
    b = Renamed('new', warn=False)
    c = Renamed('other')
t = Two()
t.a = 1
must(t.b == 1 and t.c is None and t.other is None, 'every old name acts on its own new name')
t.c = 2
must(t.new == 1 and t.other == 2 and t.c == 2, 'every old name acts on its own new name')
n = len(warned)
t.b = 5
must(t.a == 5 and len(warned) == n + 1, 'warnings are disabled for one name')
''')
    add('immutable', '''
class K(HasProperties):
    fixed = properties.GettableProperty('d', default=3)
    old = Renamed('fixed')
    @properties.Integer('d')
    def dyn(self):
        return 5
    olddyn = Renamed('dyn')
k = K()
must(k.old == 3 and k.olddyn == 5, 'the old name reads the new property')
must(not outcome(setattr(k, 'old', 4)).ok and not outcome(delattr(k, 'old')).ok, 'the old name is as immutable as the new one')
must(not outcome(setattr(k, 'olddyn', 4)).ok, 'the old name is as immutable as the new one')
must(k.fixed == 3 and k.dyn == 5, 'the new property stays as it is')
''')
    # ------------------------------------------------------- class creation
    add('unknown', '''
class Base(HasProperties):
    new = Property('d', required=False)
    oldbase = Renamed('new')
    plain = 3
    def method(self):
        return 1
target = pick('new', 'own', 'oldbase', 'imm', 'nothing', 'plain', 'method', 'attr', '', 'New', '__doc__', '_props')
def make():
    class K(Base):
        old = Renamed(target)
        own = Property('d', required=False)
        imm = properties.GettableProperty('d')
        attr = 5
    return K
r = outcome(make())
must(r.ok == (target in ('new', 'own', 'oldbase', 'imm')), 'a renamed property points to a property of its class')
if r.ok:
    must(r.value._props['old'].new_name == target and r.value._props['old'].name == 'old', 'the new name is kept')
else:
    must(isinstance(r.error, TypeError), 'pointing to an unknown property is a type error')
    must('K' not in HasProperties._REGISTRY, 'a failing class is not registered')
''')
    add('gone', '''
class Base(HasProperties):
    new = Property('d', required=False)
def make():
    class K(Base):
        new = 5
        old = Renamed('new')
    return K
r = outcome(make())
must(not r.ok and isinstance(r.error, TypeError), 'pointing to a property that was replaced is refused')
def make2():
    class K(HasProperties):
        old = Renamed('later')
    class L(K):
        later = Property('d')
    return L
r = outcome(make2())
must(not r.ok and isinstance(r.error, TypeError), 'pointing to a property of a subclass is refused')
''')
    add('arguments', '''
n = pick(3, None, ['x'], b'x', object())
r = outcome(Renamed(n))
must(not r.ok and isinstance(r.error, TypeError), 'a new name is a string')
w = pick(None, 1, 'yes', 0)
r = outcome(Renamed('x', warn=w))
must(not r.ok and isinstance(r.error, TypeError), 'warnings are disabled by a boolean')
''')
    # ------------------------------------------------------------- old data
    add('constructor', '''
class K(HasProperties):
    new = P('d', required=pick(True, False))
    old = Renamed('new', warn=pick(True, False))
    other = Property('d', required=False)
    @properties.observer('new')
    def _set_new(self, change):
        told.append((change['name'], change['value']))
X = sym('X')
assume(X is not undefined and X is not None)
a = outcome(K(old=X, other=1))
n = len(warned)
must(n == (1 if K._props['old'].warn else 0), 'the old name warns')
b = outcome(K(new=X, other=1))
must(len(warned) == n, 'the new name does not warn')
must(a.ok == b.ok, 'the old keyword does what the new one does')
if a.ok:
    must(same(a.value.new, b.value.new) and same(a.value.new, V(X)), 'the old keyword sets the new property')
    must(set(a.value._backend) == set(b.value._backend), 'the old keyword sets the new property')
    must(len(told) == 2 and told[0] == told[1], 'callbacks hear of the new name')
else:
    must(isinstance(a.error, ValidationError) and isinstance(b.error, ValidationError), 'the old keyword does what the new one does')
    must(a.error.error_tuples[0].prop == b.error.error_tuples[0].prop, 'the error is about the new property')
''')
    add('data', '''
seen = []
class Q(P):
    def deserialize(self, value, **kwargs):
        seen.append((self.name, value, sorted(kwargs), kwargs.get('mult')))
        return D
D = sym('D')
assume(D is not undefined and D is not None)
class K(HasProperties):
    new = Q('d', required=False)
    old = Renamed('new', warn=False)
    older = Renamed('old', warn=False)
    other = Property('d', required=False)
X = sym('X')
name = pick('old', 'older')
data = {name: X, 'other': 1}
strict, trusted = pick(True, False), pick(True, False)
a = outcome(K.deserialize(data, strict=strict, trusted=trusted, mult=3))
b = outcome(K.deserialize({'new': X, 'other': 1}, strict=strict, trusted=trusted, mult=3))
must(data == {name: X, 'other': 1}, 'the data stay as they were')
must(len(seen) == 2 and seen[0][0] == 'new' and seen[0][1:] == seen[1][1:], 'the new property reads the data')
must(same(seen[0][1], X), 'the new property reads the data')
must(a.ok == b.ok, 'old data are read like new data')
if a.ok:
    must(same(a.value.new, b.value.new), 'the new property is set')
    must(sorted(a.value._backend) == ['new', 'other'], 'the new property is set')
''')
    add('own-deserializer', '''
seen = []
class K(HasProperties):
    new = Integer('d', required=False, deserializer=lambda v, **kw: 100)
    old = Renamed('new', warn=False, deserializer=lambda v, **kw: v + 1)
k = K.deserialize({'old': 4})
must(k.new == 5, 'a deserializer of the old name reads old data')
k = K.deserialize({'new': 4})
must(k.new == 100, 'new data are read by the new property')
''')
    add('nested-data', '''
class In(HasProperties):
    v = Integer('d', required=False)
    old = Renamed('v', warn=False)
class K(HasProperties):
    i = Instance('d', In, required=False)
    oldi = Renamed('i')
    l = List('d', In, required=False)
    oldl = Renamed('l', warn=False)
d = {'oldi': {'old': 4}, 'oldl': [{'old': 5}, {}]}
k = K.deserialize(d)
must(type(k.i) is In and len(k.l) == 2 and type(k.l[0]) is In and k.i.v == 4 and k.l[0].v == 5, 'nested data under old names are read')
must(k.serialize(include_class=False) == {'i': {'v': 4}, 'l': [{'v': 5}, {}]}, 'data are written under new names only')
''')
    add('filter', '''
class K(HasProperties):
    new = Property('d', required=False)
    old = Renamed('new')
    imm = properties.GettableProperty('d')
data = {'new': 1, 'old': 2, 'imm': 3, 'x': 4}
imm = pick(True, False)
props, others = properties.filter_props(pick(K, K()), data, imm)
must(props.get('old') == 2 and 'old' not in others, 'old names are property names')
must(('imm' in props) == imm and ('x' in others), 'other keys are sorted')
must(len(warned) == 0, 'sorting keys does not warn')
''')
    add('quiet', '''
class K(HasProperties):
    new = Property('d', required=False, default=1)
    old = Renamed('new')
k, j = K(), K()
warned.clear()
op = pick('serialize', 'equal', 'validate', 'copy', 'reset', 'create', 'deserialize', 'class', 'everything')
if op == 'serialize':
    must(k.serialize(include_class=False) == {'new': 1}, 'data are written under the new name')
elif op == 'equal':
    must(properties.equal(k, j), 'equal values are equal')
elif op == 'validate':
    must(k.validate(), 'a valid instance is valid')
elif op == 'copy':
    must(properties.copy(k).new == 1, 'the new property is copied')
elif op == 'reset':
    k.new = 3
    k._reset('new')
    must(k.new == 1, 'the new property is reset')
elif op == 'create':
    must(K(new=2).new == 2, 'the new property is set')
elif op == 'deserialize':
    must(K.deserialize({'new': 2}).new == 2, 'the new property is set')
elif op == 'class':
    class Sub(K):
        pass
else:
    class Sub(K):
        @properties.observer(properties.everything)
        def _all(self, change):
            told.append(change['name'])
    s = Sub()
    s.new = 5
    must(told == ['new'], 'callbacks hear of the new name')
must(len(warned) == 0, 'only using the old name warns')
''')
    return S
